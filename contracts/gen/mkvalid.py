"""the validity of what was parsed, but for the two exceptions: spec functions and lemmas of one stage"""
def valid(stage):
    env = stage >= 2
    o = ["""// ---- what was parsed is valid, but for closing brackets that close nothing and odd environment names

pub open spec fn nc_text(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !is_close(#[trigger] s[i])
}

proof fn lemma_nc_text(s: Seq<char>)
    requires w_text(s), nc_text(s),
    ensures txt_ok(s),
{
%s}
""" % ("    crate::ast1_spec::lemma_w_text_ok(s);\n" if env else "")]
    if stage == 3:
        o.append("pub use crate::ast2_spec::{nc_name, lemma_nc_name};\n")
    if stage == 2:
        o.append("""pub open spec fn nc_name(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\\\\' && !is_open(s[i]) && !is_close(s[i])
}

pub proof fn lemma_nc_name(s: Seq<char>)
    requires name_ok(s), nc_name(s),
    ensures txt_ok(s),
{
    assert(!s.contains('\\\\')) by {
        if s.contains('\\\\') {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == '\\\\';
            assert(s[i] != '\\\\');
        }
    }
    assert forall|i: int| 0 <= i < s.len() implies !special(#[trigger] s[i]) by {
        if s[i] == '%' {
            assert(s.contains('%'));
        }
    }
    crate::ast1_spec::lemma_txt_ok_def(s);
}
""")
    arms = [("Text(s)", "nc_text(s@)", "lemma_nc_text(s@);"),
            ("Command(c)", "nc_args(c.arguments@)", "def_w_command(c); def_ok_command(c); lemma_valid_args(c.arguments@);" + ("" if stage == 3 else " lemma_label_ok(c.label@);")),
            ("Scope(s)", "nc_list(s.chunks@)", "def_w_scope(s); def_ok_scope(s); lemma_valid(s.chunks@);")]
    if env:
        arms.append(("Environment(e)", "nc_name(e.label@) && nc_args(e.arguments@) && nc_list(e.content@)",
                     "def_w_env(e); def_ok_env(e); lemma_nc_name(e.label@); lemma_valid_args(e.arguments@); lemma_valid(e.content@);"))
    if stage == 3:
        arms.append(("ParagraphBreak(s)", "true", ""))
        arms.append(("MathsBlock(m)", "nc_list(m.content@)", "def_w_maths(m); def_ok_maths(m); lemma_valid(m.content@);"))
    if stage == 1 or stage == 2:
        o.append("""proof fn lemma_label_ok(s: Seq<char>)
    ensures txt_ok(s) || s.len() == 1 ==> label_ok(s),
{
%s}
""" % ("    crate::ast1_spec::lemma_label(s);\n" if env else ""))
    def arm(i):
        return "\n".join("        ChunkVariant::%s => %s" % (a[0], ("{ %s }," if i == 2 else "%s,") % a[i]) for a in arms)
    o.append("""/// no such bracket, no such name
pub closed spec fn nc_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
%s
    }
}

pub closed spec fn nc_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_list(c.drop_last()) && nc_variant(c.last().variant))
}

pub closed spec fn nc_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_args(c.drop_last()) && nc_list(c.last().1.chunks@))
}

pub proof fn lemma_valid(c: Seq<Chunk>)
    requires w_list(c), nc_list(c),
    ensures ok_list(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_list_push(a, x);
        lemma_ok_list_push(a, x);
        lemma_valid(a);
        lemma_valid_variant(x.variant);
        def_ok_chunk(x);
    } else {
        lemma_ok_list_empty(c);
    }
}

pub proof fn lemma_valid_variant(v: ChunkVariant)
    requires w_variant(v), nc_variant(v),
    ensures ok_variant(v),
    decreases v,
{
    def_w_variant(v);
    def_ok_variant(v);
    match v {
%s
    }
}

pub proof fn lemma_valid_args(c: Seq<(String, Scope)>)
    requires w_args(c), nc_args(c),
    ensures ok_args(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_args_push(a, x);
        lemma_ok_args_push(a, x);
        def_w_scope(x.1);
        def_ok_scope(x.1);
        lemma_valid_args(a);
        lemma_valid(x.1.chunks@);
    } else {
        lemma_ok_args_empty(c);
    }
}
""" % (arm(1), arm(2)))
    if stage == 1 or stage == 3:
        num = "" if stage == 1 else """/// numbered throughout, so numbered at the top
pub proof fn lemma_dn_num(c: Seq<Chunk>)
    requires dn_list(c),
    ensures num(c),
    decreases c,
{
    if c.len() > 0 {
        assert(c =~= c.drop_last().push(c.last()));
        lemma_dn_list_push(c.drop_last(), c.last());
        lemma_dn_num(c.drop_last());
        lemma_num_push(c.drop_last(), c.last());
    } else {
        lemma_num_empty(c);
    }
}

"""
        o.append(num)
    if stage < 3:
        o.append("""/// the parser's promise (C15): what it returns, `validate` accepts
proof fn lemma_parsed_valid(d: Document)
    requires dn_list(d.0@), w_list(d.0@), nc_list(d.0@),
    ensures num(d.0@) && ok_list(d.0@),
{
    lemma_dn_num(d.0@);
    lemma_valid(d.0@);
}
""")
    else:
        o.append("""/// the parser's promise (C15): what it returns, `validate` accepts
proof fn lemma_parsed_valid(d: Document)
    requires
        dn_doc(d),
        w_doc(d),
        nc_list(d.preamable@) && nc_args(d.body_args@) && nc_list(d.body@) && nc_list(d.trailing@),
    ensures
        num(d.preamable@) && ok_list(d.preamable@) && num(d.body@) && ok_list(d.body@) && num(d.trailing@) && ok_list(d.trailing@),
        ok_args(d.body_args@),
{
    lemma_dn_num(d.preamable@);
    lemma_valid(d.preamable@);
    lemma_dn_num(d.body@);
    lemma_valid(d.body@);
    lemma_dn_num(d.trailing@);
    lemma_valid(d.trailing@);
    lemma_valid_args(d.body_args@);
}
""")
    return "\n".join(o)
