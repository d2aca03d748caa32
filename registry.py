"""Which components decide which property."""
from comps.base import faulty, plain
from comps import alloc, array, bytebuf, str as cstr, deque, links, tree, tuple as ctuple, variant, map as cmap, lex, util, msg, math, cfg, plugin, own
from comps.big import big
COMPS = {
    "region": alloc.region,
    "bistack": alloc.bistack,
    "objpool": alloc.objpool,
    "mempool": alloc.mempool,
    "array": array.array,
    "bytebuf": bytebuf.bytebuf,
    "deque": deque.deque,
    "map": cmap.map_,
    "links": links.links,
    "str": cstr.str_,
    "tree": tree.tree,
    "tuple": ctuple.tuple_,
    "variant": variant.variant,
    "lexutf": lex.utf,
    "lexskip": lex.skip,
    "lexstr": lex.quoted,
    "lexnum": lex.num,
    "lexconv": lex.conv,
    "inthelp": util.ints,
    "buffers": util.buffers,
    "msgsys": msg.msgsys,
    "msgspan": msg.msgspan,
    "random": util.random_,
    "math": math.math_,
    "cfgtext": cfg.text,
    "cfgpath": cfg.paths,
    "cfgwrite": cfg.writing,
    "plugin": plugin.handles,
    "walk": plugin.walk,
    "bigarray": big("array"),
    "bigbytebuf": big("bytebuf"),
    "bigstr": big("str"),
    "bigdeque": big("deque"),
    "bigmap": big("map"),
    "bigtree": big("tree"),
    "own": own.own,
}
PROPS = {
    "A01": [alloc.region],
    "A02": [alloc.bistack],
    "A03": [alloc.objpool],
    "A04": [alloc.mempool],
    "C01": [array.array, big("array")],
    "C02": [bytebuf.bytebuf, big("bytebuf")],
    "C03": [deque.deque, big("deque")],
    "C04": [cmap.map_, big("map")],
    "C05": [cmap.map_, big("map")],
    "C06": [tree.tree, big("tree")],
    "C07": [ctuple.tuple_],
    "C08": [variant.variant],
    "C09": [links.links],
    "S01": [cstr.str_, big("str")],
    "S02": [cstr.str_, big("str")],
    "S03": [cstr.str_, big("str")],
    "L01": [lex.utf],
    "L02": [lex.skip],
    "L03": [lex.quoted],
    "L04": [lex.num],
    "L05": [lex.conv],
    "M01": [math.math_],
    "G01": [cfg.text],
    "G02": [cfg.paths],
    "G03": [cfg.writing],
    "P01": [plugin.handles],
    "P02": [plugin.walk],
    "D01": [msg.msgspan],
    "D02": [msg.msgsys],
    "U01": [util.ints],
    "U02": [util.buffers],
    "R01": [util.random_],
    "F02": [own.own],
    "F01": [faulty(cstr, cstr.str_), faulty(array, array.array), faulty(bytebuf, bytebuf.bytebuf), faulty(deque, deque.deque), faulty(cmap, cmap.map_), faulty(tree, tree.tree), faulty(ctuple, ctuple.tuple_), faulty(variant, variant.variant)] + [plain(c) for c in (alloc.region, alloc.bistack, alloc.objpool, alloc.mempool)],
}
NOTES = {}
NA = {}
