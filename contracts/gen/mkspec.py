"""one-off: the families of spec functions over the values of a stage"""
import sys
def fam(name, kind, ret, nodes, chunk=None, extra="", extra_args="", arg_expr=None, doc=""):
    """nodes: dict variant-> expr text (ChunkVariant arms) and struct -> expr"""
    out=[]
    F=lambda n:f"{name}_{n}"
    def spec(fn, params, body, dec, closed=True):
        out.append(f"pub closed spec fn {fn}({params}{extra}) -> {ret}\n    decreases {dec},\n{{\n{body}\n}}\n")
    def defl(fn, params, args, body):
        out.append(f"pub broadcast proof fn def_{fn}({params}{extra})\n    ensures #[trigger] {fn}({args}{extra_args}) == ({{\n{body}\n    }}),\n{{\n}}\n")
        group.append(f"def_{fn}")
    if doc: out.append(f"/// {doc}")
    arms="\n".join(f"        ChunkVariant::{v}({x}) => {e}," for v,x,e in nodes["variant"])
    body=f"    match v {{\n{arms}\n    }}"
    spec(F("variant"),"v: ChunkVariant",body,"v"); defl(F("variant"),"v: ChunkVariant","v",body)
    if chunk:
        body=f"    {F('variant')}(c.variant{extra_args})"
        spec(F("chunk"),"c: Chunk",body,"c"); defl(F("chunk"),"c: Chunk","c",body)
    for st,ty,x in nodes["structs"]:
        if st in nodes:
            body="    "+nodes[st]
            spec(F(st),f"{x}: {ty}",body,x); defl(F(st),f"{x}: {ty}",x,body)
    lastc = f"{F('chunk')}(c.last(){extra_args})" if chunk else f"{F('variant')}(c.last().variant{extra_args})"
    pushc = f"{F('chunk')}(c{extra_args})" if chunk else f"{F('variant')}(c.variant{extra_args})"
    argl = nodes["arg"].replace("@A","c.last()")
    argp = nodes["arg"].replace("@A","c")
    line = nodes.get("line","")
    def lst(fn, ty, last, push, nm, line):
        g=lambda a: f"{fn}({a}{extra_args})"
        if kind=="seq":
            e="Seq::empty()"; comb=lambda a,b:f"{a} + {b}"
        elif kind=="and":
            e="true"; comb=lambda a,b:f"({a} && {b})"
        else:
            e="false"; comb=lambda a,b:f"({a} || {b})"
        l2=line.replace("@L","c.last()").replace("@P","c.drop_last()")
        l3=line.replace("@L","c").replace("@P","a")
        lastx= f"({l2} && {last})" if line else last
        pushx= f"({l3} && {push})" if line else push
        out.append(f"pub closed spec fn {fn}(c: Seq<{ty}>{extra}) -> {ret}\n    decreases c,\n{{\n    if c.len() == 0 {{\n        {e}\n    }} else {{\n        {comb(g('c.drop_last()'),lastx)}\n    }}\n}}\n")
        out.append(f"pub broadcast proof fn lemma_{fn}_empty(c: Seq<{ty}>{extra})\n    requires c.len() == 0,\n    ensures #[trigger] {g('c')} == {'Seq::<'+ret[4:-1]+'>::empty()' if kind=='seq' else e},\n{{\n}}\n")
        out.append(f"pub broadcast proof fn lemma_{fn}_push(a: Seq<{ty}>, c: {ty}{extra})\n    ensures #[trigger] {g('a.push(c)')} == {comb(g('a'),pushx)},\n{{\n    assert(a.push(c).drop_last() =~= a);\n}}\n")
        group.extend([f"lemma_{fn}_empty",f"lemma_{fn}_push"])
        if not line:
            out.append(f"pub broadcast proof fn lemma_{fn}_add(a: Seq<{ty}>, b: Seq<{ty}>{extra})\n    ensures #[trigger] {g('a + b')} == {comb(g('a'),g('b'))},\n    decreases b.len(),\n{{\n    if b.len() == 0 {{\n        assert(a + b =~= a);\n"
             + (f"        assert({g('a')} + {g('b')} =~= {g('a')});\n" if kind=="seq" else "")
             + f"    }} else {{\n        assert((a + b).drop_last() =~= a + b.drop_last());\n        lemma_{fn}_add(a, b.drop_last(){extra_args});\n"
             + (f"        assert({g('a + b')} =~= {g('a')} + {g('b')});\n" if kind=="seq" else "")
             + "    }\n}\n")
            group.append(f"lemma_{fn}_add")
        else:
            out.append(f"pub broadcast proof fn lemma_{fn}_add(a: Seq<{ty}>, b: Seq<{ty}>{extra})\n    ensures #[trigger] {g('a + b')} ==> {g('a')},\n    decreases b.len(),\n{{\n    if b.len() == 0 {{\n        assert(a + b =~= a);\n    }} else {{\n        assert((a + b).drop_last() =~= a + b.drop_last());\n        lemma_{fn}_add(a, b.drop_last(){extra_args});\n    }}\n}}\n")
            group.append(f"lemma_{fn}_add")
    lst(F("list"),"Chunk",lastc,pushc,"list",line)
    lst(F("args"),nodes["argty"],argl,argp,"args","")
    return "\n".join(out)
group=[]
