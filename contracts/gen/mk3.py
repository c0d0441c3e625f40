"""contracts/ast3.spec.rs from ast3.hand.rs and the families of spec functions over the values of stage 3"""
import re
exec(open('/verif/contracts/gen/mkspec.py').read())
exec(open('/verif/contracts/gen/mkvalid.py').read())
S=[("command","Command","c"),("scope","Scope","s"),("env","Environment","e"),("maths","MathsBlock","m")]
V=lambda f,text,brk:[("Text","s",text),("ParagraphBreak","s",brk),("MathsBlock","m",f"{f}_maths(m)"),("Command","c",f"{f}_command(c)"),("Scope","s",f"{f}_scope(s)"),("Environment","e",f"{f}_env(e)")]
A="(String, Scope)"
o=[]
o.append("// ---- the printed form\n")
o.append(fam("r","seq","Seq<char>",dict(variant=V("r","s@","s@"),structs=S,
  command="seq!['\\\\'] + c.label@ + r_args(c.arguments@)",
  scope="seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]",
  env="t_begin(e.prec_begin@, e.label@) + r_args(e.arguments@) + r_list(e.content@) + t_end(e.prec_end@, e.label@)",
  maths="m_open(m.variant, m.raw_type) + r_list(m.content@) + m_close(m.variant, m.raw_type)",
  arg="(@A.0@ + r_scope(@A.1))",argty=A),chunk=True))
o.append("// ---- validity\n")
o.append(fam("ok","and","bool",dict(variant=V("ok","txt_ok(s@) && !brk(s@)","pb_ok(s@)"),structs=S,
  command='c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && ok_args(c.arguments@)',
  scope="ok_list(s.chunks@)",
  env="txt_ok(e.label@) && ok_args(e.arguments@) && ok_list(e.content@)",
  maths="ok_list(m.content@)",
  arg="ok_scope(@A.1)",argty=A),chunk=True))
o.append("// ---- what a rejection may say: a violation that is there\n")
bad=fam("bad","or","bool",dict(variant=V("bad","bad_text(s@, x) || (x is UnbrokenParagraph && brk(s@))","(x is ParagraghBreakNonwhitespace && !all_ws(s@)) || (x is ParagraphBreakTooShort && nl(s@) < 2)"),structs=S,
  command='(c.label@ == "begin"@ && x is BeginCommand) || (c.label@ == "end"@ && x is EndCommand) || (c.label@.len() != 1 && bad_text(c.label@, x)) || bad_args(c.arguments@, x)',
  scope="bad_list(s.chunks@, x)",
  env="bad_text(e.label@, x) || bad_args(e.arguments@, x) || bad_list(e.content@, x)",
  maths="bad_list(m.content@, x)",
  arg="bad_scope(@A.1, x)",argty=A),chunk=True,extra=", x: InternalError",extra_args=", x")
for n,v in (("command","c"),("scope","s"),("env","e"),("maths","m")):
    bad=bad.replace(f"bad_{n}({v})",f"bad_{n}({v}, x)")
o.append(bad)
o.append("// ---- deep numbering: every list, however deeply nested\n")
o.append(fam("dn","and","bool",dict(variant=V("dn","true","true"),structs=S,
  command="dn_args(c.arguments@)",scope="dn_list(s.chunks@)",env="dn_args(e.arguments@) && dn_list(e.content@)",maths="dn_list(m.content@)",
  arg="dn_scope(@A.1)",argty=A,line="@L.line_no == 1 + nl(r_list(@P))")))
o.append("// ---- what the conversion makes: valid but for closing brackets in texts and environment names\n")
o.append(fam("w","and","bool",dict(variant=V("w","w_text(s@) && !brk(s@)","pb_ok(s@)"),structs=S,
  command='c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && w_args(c.arguments@)',scope="w_list(s.chunks@)",env="name_ok(e.label@) && w_args(e.arguments@) && w_list(e.content@)",maths="w_list(m.content@)",
  arg="w_scope(@A.1)",argty=A)))
o.append("// ---- maths taken out: no dollar in a text, no delimiter among the commands, blocks as they read\n")
o.append(fam("mn","and","bool",dict(variant=V("mn","no_d(s@)","true"),structs=S,
  command='!delim(c.label@) && mn_args(c.arguments@)',scope="mn_list(s.chunks@)",env="mn_args(e.arguments@) && mn_list(e.content@)",
  maths="(m.variant is Dollars ==> nod(t_list(m.content@)) && (m.raw_type is Inline ==> t_list(m.content@).len() > 0)) && (m.variant is Brackets ==> run(m.raw_type, t_list(m.content@)) == 0) && mn_list(m.content@)",
  arg="mn_scope(@A.1)",argty=A)))
def toargs(x,f):
    return x.replace(f"pub closed spec fn {f}_args(c: Seq<(String, Scope)>) -> Seq<Tk>",f"pub closed spec fn {f}_args(c: Seq<(String, Scope)>) -> Seq<TkArg>").replace(f"#[trigger] {f}_args(c) == Seq::<Tk>",f"#[trigger] {f}_args(c) == Seq::<TkArg>")
o.append("// ---- the characters, commands, groups and environments of a list in order, maths taken apart\n")
o.append(toargs(fam("t","seq","Seq<Tk>",dict(variant=[("Text","s","chs(s@)"),("ParagraphBreak","s","chs(s@)"),("MathsBlock","m","t_maths(m)"),("Command","c","seq![Tk::Cmd(c.label@, t_args(c.arguments@))]"),("Scope","s","seq![Tk::Grp(sv_2(s.variant), t_list(s.chunks@))]"),("Environment","e","seq![Tk::Env(e.prec_begin@, e.label@, t_args(e.arguments@), t_list(e.content@), e.prec_end@)]")],structs=S,
  maths="tm_open(m.variant, m.raw_type) + t_list(m.content@) + tm_close(m.variant, m.raw_type)",
  arg="seq![TkArg { pre: @A.0@, var: sv_2(@A.1.variant), body: t_list(@A.1.chunks@) }]",argty=A)),"t"))
fams="\n".join(o)
g3=list(group)
# the same over stage 2
def over2(x):
    x=re.sub(r"\bChunkVariant\b","ast2::ChunkVariant",x); x=re.sub(r"\bChunk\b","ast2::Chunk",x)
    for ty in ("Command","Scope","Environment"):
        x=re.sub(r"\b%s\b(?!\()"%ty,"ast2::"+ty,x)
    return x
S2=[("command","Command","c"),("scope","Scope","s"),("env","Environment","e")]
group.clear()
two=[]
two.append(toargs(fam("t2","seq","Seq<Tk>",dict(variant=[("Text","s","chs(s@)"),("Command","c","seq![Tk::Cmd(c.label@, t2_args(c.arguments@))]"),("Scope","s","seq![Tk::Grp(s.variant, t2_list(s.chunks@))]"),("Environment","e","seq![Tk::Env(e.prec_begin@, e.label@, t2_args(e.arguments@), t2_list(e.content@), e.prec_end@)]")],structs=S2,
  arg="seq![TkArg { pre: @A.0@, var: @A.1.variant, body: t2_list(@A.1.chunks@) }]",argty=A)),"t2"))
V2=lambda f,text:[("Text","s",text),("Command","c",f"{f}_command(c)"),("Scope","s",f"{f}_scope(s)"),("Environment","e",f"{f}_env(e)")]
two.append(fam("mo","and","bool",dict(variant=V2("mo","true"),structs=S2,
  command="(delim(c.label@) ==> c.arguments@.len() == 0) && mo_args(c.arguments@)",scope="mo_list(s.chunks@)",env="mo_args(e.arguments@) && mo_list(e.content@)",
  arg="mo_scope(@A.1)",argty=A)))
two="// ---- stage 2: the same, and delimiters of maths that carry no arguments\n\n"+over2("\n".join(two))
g2=list(group)
hand=open('/verif/contracts/gen/ast3.hand.rs').read()
grp="\n".join("    "+g+"," for g in g3+g2)
open('/verif/contracts/ast3.spec.rs','w').write(hand.replace("//@VALID",valid(3)).replace("//@FAMS",fams+"\n"+two).replace("//@GROUP",grp))
