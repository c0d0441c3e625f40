exec(open('/verif/contracts/gen/mkspec.py').read())
exec(open('/verif/contracts/gen/mkvalid.py').read())
S=[("command","Command","c"),("scope","Scope","s"),("env","Environment","e")]
V=lambda text,f:[("Text","s",text),("Command","c",f"{f}_command(c)"),("Scope","s",f"{f}_scope(s)"),("Environment","e",f"{f}_env(e)")]
A="(String, Scope)"
o=[]
o.append("// ---- the printed form\n")
o.append(fam("r","seq","Seq<char>",dict(variant=V("s@","r"),structs=S,
  command="seq!['\\\\'] + c.label@ + r_args(c.arguments@)",
  scope="seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]",
  env="t_begin(e.prec_begin@, e.label@) + r_args(e.arguments@) + r_list(e.content@) + t_end(e.prec_end@, e.label@)",
  arg="(@A.0@ + r_scope(@A.1))",argty=A),chunk=True))
o.append("// ---- validity\n")
o.append(fam("ok","and","bool",dict(variant=V("txt_ok(s@)","ok"),structs=S,
  command='c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && ok_args(c.arguments@)',
  scope="ok_list(s.chunks@)",
  env="txt_ok(e.label@) && ok_args(e.arguments@) && ok_list(e.content@)",
  arg="ok_scope(@A.1)",argty=A),chunk=True))
o.append("// ---- what a rejection may say: a violation that is there\n")
o.append(fam("bad","or","bool",dict(variant=V("bad_text(s@, x)","bad"),structs=S,
  command='(c.label@ == "begin"@ && x is BeginCommand) || (c.label@ == "end"@ && x is EndCommand) || (c.label@.len() != 1 && bad_text(c.label@, x)) || bad_args(c.arguments@, x)',
  scope="bad_list(s.chunks@, x)",
  env="bad_text(e.label@, x) || bad_args(e.arguments@, x) || bad_list(e.content@, x)",
  arg="bad_scope(@A.1, x)",argty=A),chunk=True,extra=", x: InternalError",extra_args=", x").replace("bad_command(c)","bad_command(c, x)").replace("bad_scope(s)","bad_scope(s, x)").replace("bad_env(e)","bad_env(e, x)"))
o.append("// ---- deep numbering: every list, however deeply nested\n")
o.append(fam("dn","and","bool",dict(variant=V("true","dn"),structs=S,
  command="dn_args(c.arguments@)",scope="dn_list(s.chunks@)",env="dn_args(e.arguments@) && dn_list(e.content@)",
  arg="dn_scope(@A.1)",argty=A,line="@L.line_no == 1 + nl(r_list(@P))")))
o.append("// ---- no command named begin or end\n")
o.append(fam("nbe","and","bool",dict(variant=V("true","nbe"),structs=S,
  command='c.label@ != "begin"@ && c.label@ != "end"@ && nbe_args(c.arguments@)',scope="nbe_list(s.chunks@)",env="nbe_args(e.arguments@) && nbe_list(e.content@)",
  arg="nbe_scope(@A.1)",argty=A)))
o.append("// ---- what the conversion makes: valid but for closing brackets in texts and environment names\n")
o.append(fam("w","and","bool",dict(variant=V("w_text(s@)","w"),structs=S,
  command='c.label@ != "begin"@ && c.label@ != "end"@ && (txt_ok(c.label@) || (c.label@.len() == 1 && c.arguments@.len() == 0)) && w_args(c.arguments@)',scope="w_list(s.chunks@)",env="name_ok(e.label@) && w_args(e.arguments@) && w_list(e.content@)",
  arg="w_scope(@A.1)",argty=A)))
o.append("// ---- environment names that go back to stage 1\n")
o.append(fam("lab","and","bool",dict(variant=V("true","lab"),structs=S,
  command='lab_args(c.arguments@)',scope="lab_list(s.chunks@)",env="name_back(e.label@) && lab_args(e.arguments@) && lab_list(e.content@)",
  arg="lab_scope(@A.1)",argty=A)))
o.append("// ---- the pieces, environments taken apart\n")
o.append(fam("f","seq","Seq<It>",dict(variant=V("seq![It::Text(s@)]","f").__class__([("Text","s","seq![It::Text(s@)]"),("Command","c","seq![It::Cmd(c.label@, f_args(c.arguments@))]"),("Scope","s","seq![It::Grp(sv_12(s.variant), f_list(s.chunks@))]"),("Environment","e","f_env(e)")]),structs=S,
  env="seq![It::Mark(true, e.prec_begin@, e.label@, f_args(e.arguments@))] + f_list(e.content@) + seq![It::Mark(false, e.prec_end@, e.label@, Seq::empty())]",
  arg="seq![ItArg { pre: @A.0@, var: sv_12(@A.1.variant), body: f_list(@A.1.chunks@) }]",argty=A)).replace("pub closed spec fn f_args(c: Seq<(String, Scope)>) -> Seq<It>","pub closed spec fn f_args(c: Seq<(String, Scope)>) -> Seq<ItArg>").replace("#[trigger] f_args(c) == Seq::<It>","#[trigger] f_args(c) == Seq::<ItArg>"))
body="\n".join(o)
open('/verif/build/ast2.fam.rs','w').write(body)
open('/verif/build/ast2.group','w').write("\n".join("    "+g+"," for g in group))
print(len(body.splitlines()),len(group))
# stage 1 counterparts
group2=group[:]; group.clear()
S1=[]
V1=[("Text","s","It::Text(s@)"),("Command","c","f1_command(c)"),("Scope","s","It::Grp(s.variant, f1_list(s.chunks@))")]
S=[("command","Command","c"),("scope","Scope","s")]
exec(open('/verif/contracts/gen/mkspec.py').read().split("group=[]")[0])
group=[]
src1=fam("f1","seq","Seq<It>",dict(variant=[("Text","s","seq![It::Text(s@)]"),("Command","c","f1_command(c)"),("Scope","s","seq![It::Grp(s.variant, f1_list(s.chunks@))]")],structs=S,
 command="if is_env(c) {\n        seq![It::Mark(c.label@ == \"begin\"@, c.arguments@[0].0@, r1_list(c.arguments@[0].1.chunks@), f1_args(c.arguments@.skip(1)))]\n    } else {\n        seq![It::Cmd(c.label@, f1_args(c.arguments@))]\n    }",
 arg="seq![ItArg { pre: @A.0@, var: @A.1.variant, body: f1_list(@A.1.chunks@) }]",argty="(String, Scope)"))
src1=src1.replace("pub closed spec fn f1_args(c: Seq<(String, Scope)>) -> Seq<It>","pub closed spec fn f1_args(c: Seq<(String, Scope)>) -> Seq<ItArg>").replace("#[trigger] f1_args(c) == Seq::<It>","#[trigger] f1_args(c) == Seq::<ItArg>")
src1+="\n// ---- names of environments that read back as they are, at stage 1\n\n"+fam("np1","and","bool",dict(variant=[("Text","s","true"),("Command","c","np1_command(c)"),("Scope","s","np1_list(s.chunks@)")],structs=S,
 command="if is_env(c) {\n        crate::ast1_spec::self_parse(c.arguments@[0].1.chunks@) && np1_args(c.arguments@.skip(1))\n    } else {\n        np1_args(c.arguments@)\n    }",
 scope="np1_list(s.chunks@)",
 arg="np1_scope(@A.1)",argty="(String, Scope)"))
import re
src1=re.sub(r"\bChunkVariant\b","ast1::ChunkVariant",src1); src1=re.sub(r"\bChunk\b","ast1::Chunk",src1)
src1=re.sub(r"\bCommand\b(?!\()","ast1::Command",src1); src1=re.sub(r"\bScope\b(?!\()","ast1::Scope",src1)
open('/verif/build/ast2.f1.rs','w').write("// ---- the pieces of a stage 1 document\n\n"+src1)

# numbering of a stage 1 list from some line on
out=[]
g3=[]
out.append('''// ---- a stage 1 list numbered from line k on

pub closed spec fn dnf1(c: Seq<ast1::Chunk>, k: int) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        dnf1(c.drop_last(), k) && c.last().line_no == k + nl(r1_list(c.drop_last())) && dn1_variant(c.last().variant)
    }
}

pub broadcast proof fn lemma_dnf1_empty(c: Seq<ast1::Chunk>, k: int)
    requires c.len() == 0,
    ensures #[trigger] dnf1(c, k),
{
}

pub broadcast proof fn lemma_dnf1_push(a: Seq<ast1::Chunk>, c: ast1::Chunk, k: int)
    ensures #[trigger] dnf1(a.push(c), k) == (dnf1(a, k) && c.line_no == k + nl(r1_list(a)) && dn1_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dnf1_add(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>, k: int)
    ensures #[trigger] dnf1(a + b, k) == (dnf1(a, k) && dnf1(b, k + nl(r1_list(a)))),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dnf1_add(a, b.drop_last(), k);
        crate::ast1_spec::lemma_r_list_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_dnf1_one(c: Seq<ast1::Chunk>)
    ensures #[trigger] dnf1(c, 1) == dn1_list(c),
    decreases c.len(),
{
    if c.len() > 0 {
        lemma_dnf1_one(c.drop_last());
        assert(c =~= c.drop_last().push(c.last()));
        crate::ast1_spec::lemma_dn_list_push(c.drop_last(), c.last());
    } else {
        crate::ast1_spec::lemma_dn_list_empty(c);
    }
}
''')
group += ["lemma_dnf1_empty","lemma_dnf1_push","lemma_dnf1_add","lemma_dnf1_one"]
src1 += "\n" + "\n".join(out)
open('/verif/build/ast2.f1.rs','w').write("// ---- the pieces of a stage 1 document\n\n"+src1)
grp=open('/verif/build/ast2.group').read()+"\n"+"\n".join("    "+g+"," for g in group)
hand=open('/verif/contracts/gen/ast2.hand.rs').read()
fams=open('/verif/build/ast2.fam.rs').read()
open('/verif/contracts/ast2.spec.rs','w').write(hand.replace("//@VALID",valid(2)).replace("//@FAMS",fams+"\n"+open('/verif/build/ast2.f1.rs').read()).replace("//@GROUP",grp))
