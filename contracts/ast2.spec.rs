use crate::ast1;
pub use crate::ast1_spec::{
    is_open, is_close, special, txt_ok, label_ok, bad_text, w_text, strip, clean,
    r_list as r1_list, r_args as r1_args, r_chunk as r1_chunk, r_variant as r1_variant, r_scope as r1_scope,
    r_command as r1_command, lemma_nl_one,
    dn_list as dn1_list, dn_args as dn1_args, dn_variant as dn1_variant, dn_scope as dn1_scope,
    dn_command as dn1_command,
    w_list as w1_list, w_args as w1_args, w_variant as w1_variant, w_scope as w1_scope, w_command as w1_command,
    Nd, NdArg, PErr, says, nd_list, nd_args, nd_variant, p_doc,
};

impl VConv<crate::ast1::ScopeVariant> for ScopeVariant {
    open spec fn conv_ok(self, r: crate::ast1::ScopeVariant) -> bool {
        r == sv_12(self)
    }

    fn v_conv(self) -> (r: crate::ast1::ScopeVariant) {
        crate::ast1::ScopeVariant::from_ast2(self)
    }
}

impl VConv<crate::ast3::ScopeVariant> for ScopeVariant {
    open spec fn conv_ok(self, r: crate::ast3::ScopeVariant) -> bool {
        r == sv_32(self)
    }

    fn v_conv(self) -> (r: crate::ast3::ScopeVariant) {
        crate::ast3::ScopeVariant::from_ast2(self)
    }
}

/// derived `==` of stage 1 chunks: the same chunks in the same lines
impl VSame for Vec<ast1::Chunk> {
    open spec fn v_same(&self, o: &Self) -> bool {
        same_list(self@, o@)
    }

    fn v_eq_same(&self, o: &Self) -> (r: bool) {
        ast1::v_eq_vec_Chunk(self, o)
    }
}

// ---- brackets

/// the same bracket at stage 1
pub open spec fn sv_12(v: ScopeVariant) -> crate::ast1::ScopeVariant {
    match v {
        ScopeVariant::Curly => crate::ast1::ScopeVariant::Curly,
        ScopeVariant::Round => crate::ast1::ScopeVariant::Round,
        ScopeVariant::Square => crate::ast1::ScopeVariant::Square,
    }
}

/// the same bracket at stage 3
pub open spec fn sv_32(v: ScopeVariant) -> crate::ast3::ScopeVariant {
    match v {
        ScopeVariant::Curly => crate::ast3::ScopeVariant::Curly,
        ScopeVariant::Round => crate::ast3::ScopeVariant::Round,
        ScopeVariant::Square => crate::ast3::ScopeVariant::Square,
    }
}

pub open spec fn sv_open(v: ScopeVariant) -> char {
    crate::ast1_spec::sv_open(sv_12(v))
}

pub open spec fn sv_close(v: ScopeVariant) -> char {
    crate::ast1_spec::sv_close(sv_12(v))
}

// ---- begin and end

pub closed spec fn t_begin(prec: Seq<char>, name: Seq<char>) -> Seq<char> {
    seq!['\\', 'b', 'e', 'g', 'i', 'n'] + prec + seq!['{'] + name + seq!['}']
}

pub closed spec fn t_end(prec: Seq<char>, name: Seq<char>) -> Seq<char> {
    seq!['\\', 'e', 'n', 'd'] + prec + seq!['{'] + name + seq!['}']
}

pub broadcast proof fn lemma_t_begin(p: Seq<char>, n: Seq<char>)
    ensures
        nl(#[trigger] t_begin(p, n)) == nl(p) + nl(n),
        t_begin(p, n).len() == 8 + p.len() + n.len(),
{
    reveal_with_fuel(nl, 8);
    assert(nl(seq!['\\', 'b', 'e', 'g', 'i', 'n']) == 0) by {
        assert(seq!['\\', 'b', 'e', 'g', 'i', 'n'] =~= Seq::empty().push('\\').push('b').push('e').push('g').push('i').push('n'));
    }
    assert(nl(seq!['{']) == 0) by {
        assert(seq!['{'] =~= Seq::empty().push('{'));
    }
    assert(nl(seq!['}']) == 0) by {
        assert(seq!['}'] =~= Seq::empty().push('}'));
    }
}

pub broadcast proof fn lemma_t_end(p: Seq<char>, n: Seq<char>)
    ensures
        nl(#[trigger] t_end(p, n)) == nl(p) + nl(n),
        t_end(p, n).len() == 6 + p.len() + n.len(),
{
    assert(nl(seq!['\\', 'e', 'n', 'd']) == 0) by {
        assert(seq!['\\', 'e', 'n', 'd'] =~= Seq::empty().push('\\').push('e').push('n').push('d'));
    }
    assert(nl(seq!['{']) == 0) by {
        assert(seq!['{'] =~= Seq::empty().push('{'));
    }
    assert(nl(seq!['}']) == 0) by {
        assert(seq!['}'] =~= Seq::empty().push('}'));
    }
}

/// in the form `fmt` prints
pub proof fn lemma_t_marks(p: Seq<char>, n: Seq<char>)
    ensures
        t_begin(p, n) == "\\begin"@ + p + "{"@ + n + "}"@,
        t_end(p, n) == "\\end"@ + p + "{"@ + n + "}"@,
{
    reveal_strlit("\\begin");
    reveal_strlit("\\end");
    reveal_strlit("{");
    reveal_strlit("}");
    assert("\\begin"@ =~= seq!['\\', 'b', 'e', 'g', 'i', 'n']);
    assert("\\end"@ =~= seq!['\\', 'e', 'n', 'd']);
    assert("{"@ =~= seq!['{']);
    assert("}"@ =~= seq!['}']);
}

/// what `fmt` writes for an environment, piece by piece
pub proof fn lemma_env_text(o: Seq<char>, e: Environment)
    ensures
        o + "\\begin"@ + e.prec_begin@ + "{"@ + e.label@ + "}"@ + r_args(e.arguments@) + r_list(e.content@) + "\\end"@ + e.prec_end@ + "{"@ + e.label@ + "}"@
            == o + r_env(e),
{
    let b = "\\begin"@ + e.prec_begin@ + "{"@ + e.label@ + "}"@;
    let z = "\\end"@ + e.prec_end@ + "{"@ + e.label@ + "}"@;
    lemma_t_marks(e.prec_begin@, e.label@);
    lemma_t_marks(e.prec_end@, e.label@);
    let l = o + "\\begin"@ + e.prec_begin@ + "{"@ + e.label@ + "}"@ + r_args(e.arguments@) + r_list(e.content@);
    assert(l =~= o + b + r_args(e.arguments@) + r_list(e.content@));
    assert(l + "\\end"@ + e.prec_end@ + "{"@ + e.label@ + "}"@ =~= l + z);
    assert(l + z =~= o + (b + r_args(e.arguments@) + r_list(e.content@) + z));
}

/// a begin or end with the name of an environment
pub open spec fn is_env(c: ast1::Command) -> bool {
    (c.label@ == "begin"@ || c.label@ == "end"@) && c.arguments@.len() > 0
        && c.arguments@[0].1.variant is Curly
}

/// names the conversion gives environments: a percent sign only after a backslash
pub closed spec fn name_ok(s: Seq<char>) -> bool {
    s.contains('%') ==> s.contains('\\')
}

/// names that stage 1 reads back as they are
pub closed spec fn name_back(s: Seq<char>) -> bool {
    clean(s) && crate::ast1_spec::p_doc(s) is Ok
}

/// such a name goes through stage 1
pub proof fn lemma_back(n: Seq<char>)
    requires name_back(n),
    ensures strip(n) == n, clean(n), crate::ast1_spec::p_doc(n) is Ok,
{
    crate::ast1_spec::lemma_clean_strip(n);
}

/// a valid name does
pub proof fn lemma_txt_back(n: Seq<char>)
    requires txt_ok(n),
    ensures name_back(n),
{
    crate::ast1_spec::lemma_txt_clean(n);
    crate::ast1_spec::lemma_p_doc_txt(n);
}

/// the name of an environment that was read goes through stage 1
pub proof fn lemma_self_back(c: Seq<ast1::Chunk>)
    requires crate::ast1_spec::self_parse(c),
    ensures name_back(r1_list(c)),
{
}

/// the command that begins an environment
pub proof fn lemma_mark_begin(b: ast1::Command, p: Seq<char>, n: Seq<char>, l: ast1::Scope)
    requires
        b.label@ == "begin"@,
        b.arguments@.len() > 0,
        b.arguments@[0].0@ == p,
        b.arguments@[0].1 == l,
        l.variant is Curly,
        r1_list(l.chunks@) == n,
    ensures
        r1_command(b) == t_begin(p, n) + r1_args(b.arguments@.skip(1)),
        f1_command(b) == seq![It::Mark(true, p, n, f1_args(b.arguments@.skip(1)))],
        np1_command(b) == (crate::ast1_spec::self_parse(l.chunks@) && np1_args(b.arguments@.skip(1))),
{
    reveal_strlit("begin");
    let a0 = b.arguments@[0];
    let rest = b.arguments@.skip(1);
    let one = Seq::empty().push(a0);
    assert(b.arguments@ =~= one + rest);
    assert("begin"@ =~= seq!['b', 'e', 'g', 'i', 'n']);
    crate::ast1_spec::lemma_r_args_add(one, rest);
    crate::ast1_spec::lemma_r_args_push(Seq::empty(), a0);
    crate::ast1_spec::lemma_r_args_empty(Seq::empty());
    crate::ast1_spec::def_r_scope(l);
    crate::ast1_spec::def_r_command(b);
    assert(r1_args(one) =~= p + r1_scope(l));
    let x = seq!['\\'] + b.label@;
    assert(x =~= seq!['\\', 'b', 'e', 'g', 'i', 'n']);
    assert(r1_scope(l) == seq!['{'] + n + seq!['}']);
    assert(x + (r1_args(one) + r1_args(rest)) =~= x + p + (seq!['{'] + n + seq!['}']) + r1_args(rest));
    assert(x + p + (seq!['{'] + n + seq!['}']) =~= t_begin(p, n));
    assert(is_env(b));
}

/// the lines of the first argument are lines of the command
pub proof fn lemma_first_arg(x: ast1::Chunk)
    ensures
        match x.variant {
            ast1::ChunkVariant::Command(c) => c.arguments@.len() > 0 ==> nl(c.arguments@[0].0@) + nl(r1_scope(c.arguments@[0].1)) <= nl(r1_chunk(x)),
            _ => true,
        },
{
    match x.variant {
        ast1::ChunkVariant::Command(c) => {
            if c.arguments@.len() > 0 {
                let a0 = c.arguments@[0];
                let one = Seq::empty().push(a0);
                let rest = c.arguments@.skip(1);
                assert(c.arguments@ =~= one + rest);
                crate::ast1_spec::lemma_r_args_add(one, rest);
                crate::ast1_spec::lemma_r_args_push(Seq::empty(), a0);
                crate::ast1_spec::lemma_r_args_empty(Seq::empty());
                assert(r1_args(one) =~= a0.0@ + r1_scope(a0.1));
                broadcast use crate::ast1_spec::group_ast1_lists, super::lemma_nl_add;
                assert(nl(r1_command(c)) == nl(seq!['\\'] + c.label@) + nl(r1_args(c.arguments@)));
            }
        },
        _ => {},
    }
}

/// the command that ends an environment
pub proof fn lemma_mark_end(e: ast1::Command, q: Seq<char>, n: Seq<char>, l: ast1::Scope)
    requires
        e.label@ == "end"@,
        e.arguments@.len() == 1,
        e.arguments@[0].0@ == q,
        e.arguments@[0].1 == l,
        l.variant is Curly,
        r1_list(l.chunks@) == n,
    ensures
        r1_command(e) == t_end(q, n),
        f1_command(e) == seq![It::Mark(false, q, n, Seq::empty())],
        np1_command(e) == crate::ast1_spec::self_parse(l.chunks@),
{
    reveal_strlit("begin");
    reveal_strlit("end");
    assert(e.arguments@ =~= Seq::empty().push(e.arguments@[0]));
    assert(e.arguments@.skip(1) =~= Seq::empty());
    assert("end"@ =~= seq!['e', 'n', 'd']);
    assert("end"@.len() == 3 && "begin"@.len() == 5);
    broadcast use crate::ast1_spec::group_ast1_lists;
    assert(r1_args(e.arguments@) =~= q + r1_scope(l));
    assert(r1_command(e) =~= t_end(q, n));
    assert(f1_args(Seq::empty()) == Seq::<ItArg>::empty());
}

/// a piece of a document
pub ghost enum It {
    Text(Seq<char>),
    Cmd(Seq<char>, Seq<ItArg>),
    Grp(crate::ast1::ScopeVariant, Seq<It>),
    /// begin or end of an environment: what precedes the name, the name, the further arguments
    Mark(bool, Seq<char>, Seq<char>, Seq<ItArg>),
}

pub ghost struct ItArg {
    pub pre: Seq<char>,
    pub var: crate::ast1::ScopeVariant,
    pub body: Seq<It>,
}

// ---- the printed form

pub closed spec fn r_variant(v: ChunkVariant) -> Seq<char>
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => s@,
        ChunkVariant::Command(c) => r_command(c),
        ChunkVariant::Scope(s) => r_scope(s),
        ChunkVariant::Environment(e) => r_env(e),
    }
}

pub broadcast proof fn def_r_variant(v: ChunkVariant)
    ensures #[trigger] r_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => s@,
        ChunkVariant::Command(c) => r_command(c),
        ChunkVariant::Scope(s) => r_scope(s),
        ChunkVariant::Environment(e) => r_env(e),
    }
    }),
{
}

pub closed spec fn r_chunk(c: Chunk) -> Seq<char>
    decreases c,
{
    r_variant(c.variant)
}

pub broadcast proof fn def_r_chunk(c: Chunk)
    ensures #[trigger] r_chunk(c) == ({
    r_variant(c.variant)
    }),
{
}

pub closed spec fn r_command(c: Command) -> Seq<char>
    decreases c,
{
    seq!['\\'] + c.label@ + r_args(c.arguments@)
}

pub broadcast proof fn def_r_command(c: Command)
    ensures #[trigger] r_command(c) == ({
    seq!['\\'] + c.label@ + r_args(c.arguments@)
    }),
{
}

pub closed spec fn r_scope(s: Scope) -> Seq<char>
    decreases s,
{
    seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]
}

pub broadcast proof fn def_r_scope(s: Scope)
    ensures #[trigger] r_scope(s) == ({
    seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]
    }),
{
}

pub closed spec fn r_env(e: Environment) -> Seq<char>
    decreases e,
{
    t_begin(e.prec_begin@, e.label@) + r_args(e.arguments@) + r_list(e.content@) + t_end(e.prec_end@, e.label@)
}

pub broadcast proof fn def_r_env(e: Environment)
    ensures #[trigger] r_env(e) == ({
    t_begin(e.prec_begin@, e.label@) + r_args(e.arguments@) + r_list(e.content@) + t_end(e.prec_end@, e.label@)
    }),
{
}

pub closed spec fn r_list(c: Seq<Chunk>) -> Seq<char>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        r_list(c.drop_last()) + r_chunk(c.last())
    }
}

pub broadcast proof fn lemma_r_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] r_list(c) == Seq::<char>::empty(),
{
}

pub broadcast proof fn lemma_r_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] r_list(a.push(c)) == r_list(a) + r_chunk(c),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_r_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] r_list(a + b) == r_list(a) + r_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(r_list(a) + r_list(b) =~= r_list(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_r_list_add(a, b.drop_last());
        assert(r_list(a + b) =~= r_list(a) + r_list(b));
    }
}

pub closed spec fn r_args(c: Seq<(String, Scope)>) -> Seq<char>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        r_args(c.drop_last()) + (c.last().0@ + r_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_r_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] r_args(c) == Seq::<char>::empty(),
{
}

pub broadcast proof fn lemma_r_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] r_args(a.push(c)) == r_args(a) + (c.0@ + r_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_r_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] r_args(a + b) == r_args(a) + r_args(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(r_args(a) + r_args(b) =~= r_args(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_r_args_add(a, b.drop_last());
        assert(r_args(a + b) =~= r_args(a) + r_args(b));
    }
}

// ---- validity

pub closed spec fn ok_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => txt_ok(s@),
        ChunkVariant::Command(c) => ok_command(c),
        ChunkVariant::Scope(s) => ok_scope(s),
        ChunkVariant::Environment(e) => ok_env(e),
    }
}

pub broadcast proof fn def_ok_variant(v: ChunkVariant)
    ensures #[trigger] ok_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => txt_ok(s@),
        ChunkVariant::Command(c) => ok_command(c),
        ChunkVariant::Scope(s) => ok_scope(s),
        ChunkVariant::Environment(e) => ok_env(e),
    }
    }),
{
}

pub closed spec fn ok_chunk(c: Chunk) -> bool
    decreases c,
{
    ok_variant(c.variant)
}

pub broadcast proof fn def_ok_chunk(c: Chunk)
    ensures #[trigger] ok_chunk(c) == ({
    ok_variant(c.variant)
    }),
{
}

pub closed spec fn ok_command(c: Command) -> bool
    decreases c,
{
    c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && ok_args(c.arguments@)
}

pub broadcast proof fn def_ok_command(c: Command)
    ensures #[trigger] ok_command(c) == ({
    c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && ok_args(c.arguments@)
    }),
{
}

pub closed spec fn ok_scope(s: Scope) -> bool
    decreases s,
{
    ok_list(s.chunks@)
}

pub broadcast proof fn def_ok_scope(s: Scope)
    ensures #[trigger] ok_scope(s) == ({
    ok_list(s.chunks@)
    }),
{
}

pub closed spec fn ok_env(e: Environment) -> bool
    decreases e,
{
    txt_ok(e.label@) && ok_args(e.arguments@) && ok_list(e.content@)
}

pub broadcast proof fn def_ok_env(e: Environment)
    ensures #[trigger] ok_env(e) == ({
    txt_ok(e.label@) && ok_args(e.arguments@) && ok_list(e.content@)
    }),
{
}

pub closed spec fn ok_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (ok_list(c.drop_last()) && ok_chunk(c.last()))
    }
}

pub broadcast proof fn lemma_ok_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] ok_list(c) == true,
{
}

pub broadcast proof fn lemma_ok_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] ok_list(a.push(c)) == (ok_list(a) && ok_chunk(c)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_ok_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] ok_list(a + b) == (ok_list(a) && ok_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ok_list_add(a, b.drop_last());
    }
}

pub closed spec fn ok_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (ok_args(c.drop_last()) && ok_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_ok_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] ok_args(c) == true,
{
}

pub broadcast proof fn lemma_ok_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] ok_args(a.push(c)) == (ok_args(a) && ok_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_ok_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] ok_args(a + b) == (ok_args(a) && ok_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ok_args_add(a, b.drop_last());
    }
}

// ---- what a rejection may say: a violation that is there

pub closed spec fn bad_variant(v: ChunkVariant, x: InternalError) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => bad_text(s@, x),
        ChunkVariant::Command(c) => bad_command(c, x),
        ChunkVariant::Scope(s) => bad_scope(s, x),
        ChunkVariant::Environment(e) => bad_env(e, x),
    }
}

pub broadcast proof fn def_bad_variant(v: ChunkVariant, x: InternalError)
    ensures #[trigger] bad_variant(v, x) == ({
    match v {
        ChunkVariant::Text(s) => bad_text(s@, x),
        ChunkVariant::Command(c) => bad_command(c, x),
        ChunkVariant::Scope(s) => bad_scope(s, x),
        ChunkVariant::Environment(e) => bad_env(e, x),
    }
    }),
{
}

pub closed spec fn bad_chunk(c: Chunk, x: InternalError) -> bool
    decreases c,
{
    bad_variant(c.variant, x)
}

pub broadcast proof fn def_bad_chunk(c: Chunk, x: InternalError)
    ensures #[trigger] bad_chunk(c, x) == ({
    bad_variant(c.variant, x)
    }),
{
}

pub closed spec fn bad_command(c: Command, x: InternalError) -> bool
    decreases c,
{
    (c.label@ == "begin"@ && x is BeginCommand) || (c.label@ == "end"@ && x is EndCommand) || (c.label@.len() != 1 && bad_text(c.label@, x)) || bad_args(c.arguments@, x)
}

pub broadcast proof fn def_bad_command(c: Command, x: InternalError)
    ensures #[trigger] bad_command(c, x) == ({
    (c.label@ == "begin"@ && x is BeginCommand) || (c.label@ == "end"@ && x is EndCommand) || (c.label@.len() != 1 && bad_text(c.label@, x)) || bad_args(c.arguments@, x)
    }),
{
}

pub closed spec fn bad_scope(s: Scope, x: InternalError) -> bool
    decreases s,
{
    bad_list(s.chunks@, x)
}

pub broadcast proof fn def_bad_scope(s: Scope, x: InternalError)
    ensures #[trigger] bad_scope(s, x) == ({
    bad_list(s.chunks@, x)
    }),
{
}

pub closed spec fn bad_env(e: Environment, x: InternalError) -> bool
    decreases e,
{
    bad_text(e.label@, x) || bad_args(e.arguments@, x) || bad_list(e.content@, x)
}

pub broadcast proof fn def_bad_env(e: Environment, x: InternalError)
    ensures #[trigger] bad_env(e, x) == ({
    bad_text(e.label@, x) || bad_args(e.arguments@, x) || bad_list(e.content@, x)
    }),
{
}

pub closed spec fn bad_list(c: Seq<Chunk>, x: InternalError) -> bool
    decreases c,
{
    if c.len() == 0 {
        false
    } else {
        (bad_list(c.drop_last(), x) || bad_chunk(c.last(), x))
    }
}

pub broadcast proof fn lemma_bad_list_empty(c: Seq<Chunk>, x: InternalError)
    requires c.len() == 0,
    ensures #[trigger] bad_list(c, x) == false,
{
}

pub broadcast proof fn lemma_bad_list_push(a: Seq<Chunk>, c: Chunk, x: InternalError)
    ensures #[trigger] bad_list(a.push(c), x) == (bad_list(a, x) || bad_chunk(c, x)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_bad_list_add(a: Seq<Chunk>, b: Seq<Chunk>, x: InternalError)
    ensures #[trigger] bad_list(a + b, x) == (bad_list(a, x) || bad_list(b, x)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bad_list_add(a, b.drop_last(), x);
    }
}

pub closed spec fn bad_args(c: Seq<(String, Scope)>, x: InternalError) -> bool
    decreases c,
{
    if c.len() == 0 {
        false
    } else {
        (bad_args(c.drop_last(), x) || bad_scope(c.last().1, x))
    }
}

pub broadcast proof fn lemma_bad_args_empty(c: Seq<(String, Scope)>, x: InternalError)
    requires c.len() == 0,
    ensures #[trigger] bad_args(c, x) == false,
{
}

pub broadcast proof fn lemma_bad_args_push(a: Seq<(String, Scope)>, c: (String, Scope), x: InternalError)
    ensures #[trigger] bad_args(a.push(c), x) == (bad_args(a, x) || bad_scope(c.1, x)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_bad_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>, x: InternalError)
    ensures #[trigger] bad_args(a + b, x) == (bad_args(a, x) || bad_args(b, x)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bad_args_add(a, b.drop_last(), x);
    }
}

// ---- deep numbering: every list, however deeply nested

pub closed spec fn dn_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => dn_command(c),
        ChunkVariant::Scope(s) => dn_scope(s),
        ChunkVariant::Environment(e) => dn_env(e),
    }
}

pub broadcast proof fn def_dn_variant(v: ChunkVariant)
    ensures #[trigger] dn_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => dn_command(c),
        ChunkVariant::Scope(s) => dn_scope(s),
        ChunkVariant::Environment(e) => dn_env(e),
    }
    }),
{
}

pub closed spec fn dn_command(c: Command) -> bool
    decreases c,
{
    dn_args(c.arguments@)
}

pub broadcast proof fn def_dn_command(c: Command)
    ensures #[trigger] dn_command(c) == ({
    dn_args(c.arguments@)
    }),
{
}

pub closed spec fn dn_scope(s: Scope) -> bool
    decreases s,
{
    dn_list(s.chunks@)
}

pub broadcast proof fn def_dn_scope(s: Scope)
    ensures #[trigger] dn_scope(s) == ({
    dn_list(s.chunks@)
    }),
{
}

pub closed spec fn dn_env(e: Environment) -> bool
    decreases e,
{
    dn_args(e.arguments@) && dn_list(e.content@)
}

pub broadcast proof fn def_dn_env(e: Environment)
    ensures #[trigger] dn_env(e) == ({
    dn_args(e.arguments@) && dn_list(e.content@)
    }),
{
}

pub closed spec fn dn_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (dn_list(c.drop_last()) && (c.last().line_no == 1 + nl(r_list(c.drop_last())) && dn_variant(c.last().variant)))
    }
}

pub broadcast proof fn lemma_dn_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] dn_list(c) == true,
{
}

pub broadcast proof fn lemma_dn_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] dn_list(a.push(c)) == (dn_list(a) && (c.line_no == 1 + nl(r_list(a)) && dn_variant(c.variant))),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dn_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] dn_list(a + b) ==> dn_list(a),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dn_list_add(a, b.drop_last());
    }
}

pub closed spec fn dn_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (dn_args(c.drop_last()) && dn_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_dn_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] dn_args(c) == true,
{
}

pub broadcast proof fn lemma_dn_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] dn_args(a.push(c)) == (dn_args(a) && dn_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dn_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] dn_args(a + b) == (dn_args(a) && dn_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dn_args_add(a, b.drop_last());
    }
}

// ---- no command named begin or end

pub closed spec fn nbe_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => nbe_command(c),
        ChunkVariant::Scope(s) => nbe_scope(s),
        ChunkVariant::Environment(e) => nbe_env(e),
    }
}

pub broadcast proof fn def_nbe_variant(v: ChunkVariant)
    ensures #[trigger] nbe_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => nbe_command(c),
        ChunkVariant::Scope(s) => nbe_scope(s),
        ChunkVariant::Environment(e) => nbe_env(e),
    }
    }),
{
}

pub closed spec fn nbe_command(c: Command) -> bool
    decreases c,
{
    c.label@ != "begin"@ && c.label@ != "end"@ && nbe_args(c.arguments@)
}

pub broadcast proof fn def_nbe_command(c: Command)
    ensures #[trigger] nbe_command(c) == ({
    c.label@ != "begin"@ && c.label@ != "end"@ && nbe_args(c.arguments@)
    }),
{
}

pub closed spec fn nbe_scope(s: Scope) -> bool
    decreases s,
{
    nbe_list(s.chunks@)
}

pub broadcast proof fn def_nbe_scope(s: Scope)
    ensures #[trigger] nbe_scope(s) == ({
    nbe_list(s.chunks@)
    }),
{
}

pub closed spec fn nbe_env(e: Environment) -> bool
    decreases e,
{
    nbe_args(e.arguments@) && nbe_list(e.content@)
}

pub broadcast proof fn def_nbe_env(e: Environment)
    ensures #[trigger] nbe_env(e) == ({
    nbe_args(e.arguments@) && nbe_list(e.content@)
    }),
{
}

pub closed spec fn nbe_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (nbe_list(c.drop_last()) && nbe_variant(c.last().variant))
    }
}

pub broadcast proof fn lemma_nbe_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] nbe_list(c) == true,
{
}

pub broadcast proof fn lemma_nbe_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] nbe_list(a.push(c)) == (nbe_list(a) && nbe_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_nbe_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] nbe_list(a + b) == (nbe_list(a) && nbe_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_nbe_list_add(a, b.drop_last());
    }
}

pub closed spec fn nbe_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (nbe_args(c.drop_last()) && nbe_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_nbe_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] nbe_args(c) == true,
{
}

pub broadcast proof fn lemma_nbe_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] nbe_args(a.push(c)) == (nbe_args(a) && nbe_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_nbe_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] nbe_args(a + b) == (nbe_args(a) && nbe_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_nbe_args_add(a, b.drop_last());
    }
}

// ---- what the conversion makes: valid but for closing brackets in texts and environment names

pub closed spec fn w_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => w_text(s@),
        ChunkVariant::Command(c) => w_command(c),
        ChunkVariant::Scope(s) => w_scope(s),
        ChunkVariant::Environment(e) => w_env(e),
    }
}

pub broadcast proof fn def_w_variant(v: ChunkVariant)
    ensures #[trigger] w_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => w_text(s@),
        ChunkVariant::Command(c) => w_command(c),
        ChunkVariant::Scope(s) => w_scope(s),
        ChunkVariant::Environment(e) => w_env(e),
    }
    }),
{
}

pub closed spec fn w_command(c: Command) -> bool
    decreases c,
{
    c.label@ != "begin"@ && c.label@ != "end"@ && (txt_ok(c.label@) || (c.label@.len() == 1 && c.arguments@.len() == 0)) && w_args(c.arguments@)
}

pub broadcast proof fn def_w_command(c: Command)
    ensures #[trigger] w_command(c) == ({
    c.label@ != "begin"@ && c.label@ != "end"@ && (txt_ok(c.label@) || (c.label@.len() == 1 && c.arguments@.len() == 0)) && w_args(c.arguments@)
    }),
{
}

pub closed spec fn w_scope(s: Scope) -> bool
    decreases s,
{
    w_list(s.chunks@)
}

pub broadcast proof fn def_w_scope(s: Scope)
    ensures #[trigger] w_scope(s) == ({
    w_list(s.chunks@)
    }),
{
}

pub closed spec fn w_env(e: Environment) -> bool
    decreases e,
{
    name_ok(e.label@) && w_args(e.arguments@) && w_list(e.content@)
}

pub broadcast proof fn def_w_env(e: Environment)
    ensures #[trigger] w_env(e) == ({
    name_ok(e.label@) && w_args(e.arguments@) && w_list(e.content@)
    }),
{
}

pub closed spec fn w_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (w_list(c.drop_last()) && w_variant(c.last().variant))
    }
}

pub broadcast proof fn lemma_w_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] w_list(c) == true,
{
}

pub broadcast proof fn lemma_w_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] w_list(a.push(c)) == (w_list(a) && w_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_w_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] w_list(a + b) == (w_list(a) && w_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_w_list_add(a, b.drop_last());
    }
}

pub closed spec fn w_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (w_args(c.drop_last()) && w_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_w_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] w_args(c) == true,
{
}

pub broadcast proof fn lemma_w_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] w_args(a.push(c)) == (w_args(a) && w_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_w_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] w_args(a + b) == (w_args(a) && w_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_w_args_add(a, b.drop_last());
    }
}

// ---- environment names that go back to stage 1

pub closed spec fn lab_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => lab_command(c),
        ChunkVariant::Scope(s) => lab_scope(s),
        ChunkVariant::Environment(e) => lab_env(e),
    }
}

pub broadcast proof fn def_lab_variant(v: ChunkVariant)
    ensures #[trigger] lab_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => lab_command(c),
        ChunkVariant::Scope(s) => lab_scope(s),
        ChunkVariant::Environment(e) => lab_env(e),
    }
    }),
{
}

pub closed spec fn lab_command(c: Command) -> bool
    decreases c,
{
    lab_args(c.arguments@)
}

pub broadcast proof fn def_lab_command(c: Command)
    ensures #[trigger] lab_command(c) == ({
    lab_args(c.arguments@)
    }),
{
}

pub closed spec fn lab_scope(s: Scope) -> bool
    decreases s,
{
    lab_list(s.chunks@)
}

pub broadcast proof fn def_lab_scope(s: Scope)
    ensures #[trigger] lab_scope(s) == ({
    lab_list(s.chunks@)
    }),
{
}

pub closed spec fn lab_env(e: Environment) -> bool
    decreases e,
{
    name_back(e.label@) && lab_args(e.arguments@) && lab_list(e.content@)
}

pub broadcast proof fn def_lab_env(e: Environment)
    ensures #[trigger] lab_env(e) == ({
    name_back(e.label@) && lab_args(e.arguments@) && lab_list(e.content@)
    }),
{
}

pub closed spec fn lab_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (lab_list(c.drop_last()) && lab_variant(c.last().variant))
    }
}

pub broadcast proof fn lemma_lab_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] lab_list(c) == true,
{
}

pub broadcast proof fn lemma_lab_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] lab_list(a.push(c)) == (lab_list(a) && lab_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_lab_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] lab_list(a + b) == (lab_list(a) && lab_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_lab_list_add(a, b.drop_last());
    }
}

pub closed spec fn lab_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (lab_args(c.drop_last()) && lab_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_lab_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] lab_args(c) == true,
{
}

pub broadcast proof fn lemma_lab_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] lab_args(a.push(c)) == (lab_args(a) && lab_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_lab_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] lab_args(a + b) == (lab_args(a) && lab_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_lab_args_add(a, b.drop_last());
    }
}

// ---- the pieces, environments taken apart

pub closed spec fn f_variant(v: ChunkVariant) -> Seq<It>
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => seq![It::Text(s@)],
        ChunkVariant::Command(c) => seq![It::Cmd(c.label@, f_args(c.arguments@))],
        ChunkVariant::Scope(s) => seq![It::Grp(sv_12(s.variant), f_list(s.chunks@))],
        ChunkVariant::Environment(e) => f_env(e),
    }
}

pub broadcast proof fn def_f_variant(v: ChunkVariant)
    ensures #[trigger] f_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => seq![It::Text(s@)],
        ChunkVariant::Command(c) => seq![It::Cmd(c.label@, f_args(c.arguments@))],
        ChunkVariant::Scope(s) => seq![It::Grp(sv_12(s.variant), f_list(s.chunks@))],
        ChunkVariant::Environment(e) => f_env(e),
    }
    }),
{
}

pub closed spec fn f_env(e: Environment) -> Seq<It>
    decreases e,
{
    seq![It::Mark(true, e.prec_begin@, e.label@, f_args(e.arguments@))] + f_list(e.content@) + seq![It::Mark(false, e.prec_end@, e.label@, Seq::empty())]
}

pub broadcast proof fn def_f_env(e: Environment)
    ensures #[trigger] f_env(e) == ({
    seq![It::Mark(true, e.prec_begin@, e.label@, f_args(e.arguments@))] + f_list(e.content@) + seq![It::Mark(false, e.prec_end@, e.label@, Seq::empty())]
    }),
{
}

pub closed spec fn f_list(c: Seq<Chunk>) -> Seq<It>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        f_list(c.drop_last()) + f_variant(c.last().variant)
    }
}

pub broadcast proof fn lemma_f_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] f_list(c) == Seq::<It>::empty(),
{
}

pub broadcast proof fn lemma_f_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] f_list(a.push(c)) == f_list(a) + f_variant(c.variant),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_f_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] f_list(a + b) == f_list(a) + f_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(f_list(a) + f_list(b) =~= f_list(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_f_list_add(a, b.drop_last());
        assert(f_list(a + b) =~= f_list(a) + f_list(b));
    }
}

pub closed spec fn f_args(c: Seq<(String, Scope)>) -> Seq<ItArg>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        f_args(c.drop_last()) + seq![ItArg { pre: c.last().0@, var: sv_12(c.last().1.variant), body: f_list(c.last().1.chunks@) }]
    }
}

pub broadcast proof fn lemma_f_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] f_args(c) == Seq::<ItArg>::empty(),
{
}

pub broadcast proof fn lemma_f_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] f_args(a.push(c)) == f_args(a) + seq![ItArg { pre: c.0@, var: sv_12(c.1.variant), body: f_list(c.1.chunks@) }],
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_f_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] f_args(a + b) == f_args(a) + f_args(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(f_args(a) + f_args(b) =~= f_args(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_f_args_add(a, b.drop_last());
        assert(f_args(a + b) =~= f_args(a) + f_args(b));
    }
}

// ---- the pieces of a stage 1 document

pub closed spec fn f1_variant(v: ast1::ChunkVariant) -> Seq<It>
    decreases v,
{
    match v {
        ast1::ChunkVariant::Text(s) => seq![It::Text(s@)],
        ast1::ChunkVariant::Command(c) => f1_command(c),
        ast1::ChunkVariant::Scope(s) => seq![It::Grp(s.variant, f1_list(s.chunks@))],
    }
}

pub broadcast proof fn def_f1_variant(v: ast1::ChunkVariant)
    ensures #[trigger] f1_variant(v) == ({
    match v {
        ast1::ChunkVariant::Text(s) => seq![It::Text(s@)],
        ast1::ChunkVariant::Command(c) => f1_command(c),
        ast1::ChunkVariant::Scope(s) => seq![It::Grp(s.variant, f1_list(s.chunks@))],
    }
    }),
{
}

pub closed spec fn f1_command(c: ast1::Command) -> Seq<It>
    decreases c,
{
    if is_env(c) {
        seq![It::Mark(c.label@ == "begin"@, c.arguments@[0].0@, r1_list(c.arguments@[0].1.chunks@), f1_args(c.arguments@.skip(1)))]
    } else {
        seq![It::Cmd(c.label@, f1_args(c.arguments@))]
    }
}

pub broadcast proof fn def_f1_command(c: ast1::Command)
    ensures #[trigger] f1_command(c) == ({
    if is_env(c) {
        seq![It::Mark(c.label@ == "begin"@, c.arguments@[0].0@, r1_list(c.arguments@[0].1.chunks@), f1_args(c.arguments@.skip(1)))]
    } else {
        seq![It::Cmd(c.label@, f1_args(c.arguments@))]
    }
    }),
{
}

pub closed spec fn f1_list(c: Seq<ast1::Chunk>) -> Seq<It>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        f1_list(c.drop_last()) + f1_variant(c.last().variant)
    }
}

pub broadcast proof fn lemma_f1_list_empty(c: Seq<ast1::Chunk>)
    requires c.len() == 0,
    ensures #[trigger] f1_list(c) == Seq::<It>::empty(),
{
}

pub broadcast proof fn lemma_f1_list_push(a: Seq<ast1::Chunk>, c: ast1::Chunk)
    ensures #[trigger] f1_list(a.push(c)) == f1_list(a) + f1_variant(c.variant),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_f1_list_add(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>)
    ensures #[trigger] f1_list(a + b) == f1_list(a) + f1_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(f1_list(a) + f1_list(b) =~= f1_list(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_f1_list_add(a, b.drop_last());
        assert(f1_list(a + b) =~= f1_list(a) + f1_list(b));
    }
}

pub closed spec fn f1_args(c: Seq<(String, ast1::Scope)>) -> Seq<ItArg>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        f1_args(c.drop_last()) + seq![ItArg { pre: c.last().0@, var: c.last().1.variant, body: f1_list(c.last().1.chunks@) }]
    }
}

pub broadcast proof fn lemma_f1_args_empty(c: Seq<(String, ast1::Scope)>)
    requires c.len() == 0,
    ensures #[trigger] f1_args(c) == Seq::<ItArg>::empty(),
{
}

pub broadcast proof fn lemma_f1_args_push(a: Seq<(String, ast1::Scope)>, c: (String, ast1::Scope))
    ensures #[trigger] f1_args(a.push(c)) == f1_args(a) + seq![ItArg { pre: c.0@, var: c.1.variant, body: f1_list(c.1.chunks@) }],
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_f1_args_add(a: Seq<(String, ast1::Scope)>, b: Seq<(String, ast1::Scope)>)
    ensures #[trigger] f1_args(a + b) == f1_args(a) + f1_args(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(f1_args(a) + f1_args(b) =~= f1_args(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_f1_args_add(a, b.drop_last());
        assert(f1_args(a + b) =~= f1_args(a) + f1_args(b));
    }
}

// ---- names of environments that read back as they are, at stage 1

pub closed spec fn np1_variant(v: ast1::ChunkVariant) -> bool
    decreases v,
{
    match v {
        ast1::ChunkVariant::Text(s) => true,
        ast1::ChunkVariant::Command(c) => np1_command(c),
        ast1::ChunkVariant::Scope(s) => np1_list(s.chunks@),
    }
}

pub broadcast proof fn def_np1_variant(v: ast1::ChunkVariant)
    ensures #[trigger] np1_variant(v) == ({
    match v {
        ast1::ChunkVariant::Text(s) => true,
        ast1::ChunkVariant::Command(c) => np1_command(c),
        ast1::ChunkVariant::Scope(s) => np1_list(s.chunks@),
    }
    }),
{
}

pub closed spec fn np1_command(c: ast1::Command) -> bool
    decreases c,
{
    if is_env(c) {
        crate::ast1_spec::self_parse(c.arguments@[0].1.chunks@) && np1_args(c.arguments@.skip(1))
    } else {
        np1_args(c.arguments@)
    }
}

pub broadcast proof fn def_np1_command(c: ast1::Command)
    ensures #[trigger] np1_command(c) == ({
    if is_env(c) {
        crate::ast1_spec::self_parse(c.arguments@[0].1.chunks@) && np1_args(c.arguments@.skip(1))
    } else {
        np1_args(c.arguments@)
    }
    }),
{
}

pub closed spec fn np1_scope(s: ast1::Scope) -> bool
    decreases s,
{
    np1_list(s.chunks@)
}

pub broadcast proof fn def_np1_scope(s: ast1::Scope)
    ensures #[trigger] np1_scope(s) == ({
    np1_list(s.chunks@)
    }),
{
}

pub closed spec fn np1_list(c: Seq<ast1::Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (np1_list(c.drop_last()) && np1_variant(c.last().variant))
    }
}

pub broadcast proof fn lemma_np1_list_empty(c: Seq<ast1::Chunk>)
    requires c.len() == 0,
    ensures #[trigger] np1_list(c) == true,
{
}

pub broadcast proof fn lemma_np1_list_push(a: Seq<ast1::Chunk>, c: ast1::Chunk)
    ensures #[trigger] np1_list(a.push(c)) == (np1_list(a) && np1_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_np1_list_add(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>)
    ensures #[trigger] np1_list(a + b) == (np1_list(a) && np1_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_np1_list_add(a, b.drop_last());
    }
}

pub closed spec fn np1_args(c: Seq<(String, ast1::Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (np1_args(c.drop_last()) && np1_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_np1_args_empty(c: Seq<(String, ast1::Scope)>)
    requires c.len() == 0,
    ensures #[trigger] np1_args(c) == true,
{
}

pub broadcast proof fn lemma_np1_args_push(a: Seq<(String, ast1::Scope)>, c: (String, ast1::Scope))
    ensures #[trigger] np1_args(a.push(c)) == (np1_args(a) && np1_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_np1_args_add(a: Seq<(String, ast1::Scope)>, b: Seq<(String, ast1::Scope)>)
    ensures #[trigger] np1_args(a + b) == (np1_args(a) && np1_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_np1_args_add(a, b.drop_last());
    }
}

// ---- a stage 1 list numbered from line k on

pub closed spec fn dnf1(c: Seq<ast1::Chunk>, k: int) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        dnf1(c.drop_last(), k) && c.last().line_no == k + nl(r1_list(c.drop_last())) && dn1_variant(c.last().variant)
    }
}

pub broadcast proof fn lemma_dnf1_empty(c: Seq<ast1::Chunk>, k: int)
    requires c.len() == 0,
    ensures #[trigger] dnf1(c, k),
{
}

pub broadcast proof fn lemma_dnf1_push(a: Seq<ast1::Chunk>, c: ast1::Chunk, k: int)
    ensures #[trigger] dnf1(a.push(c), k) == (dnf1(a, k) && c.line_no == k + nl(r1_list(a)) && dn1_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dnf1_add(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>, k: int)
    ensures #[trigger] dnf1(a + b, k) == (dnf1(a, k) && dnf1(b, k + nl(r1_list(a)))),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dnf1_add(a, b.drop_last(), k);
        crate::ast1_spec::lemma_r_list_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_dnf1_one(c: Seq<ast1::Chunk>)
    ensures #[trigger] dnf1(c, 1) == dn1_list(c),
    decreases c.len(),
{
    if c.len() > 0 {
        lemma_dnf1_one(c.drop_last());
        assert(c =~= c.drop_last().push(c.last()));
        crate::ast1_spec::lemma_dn_list_push(c.drop_last(), c.last());
    } else {
        crate::ast1_spec::lemma_dn_list_empty(c);
    }
}


// ---- the conversion from stage 1: chunks done, and the environment that is open

/// the name of the outermost environment that is open
pub open spec fn stk(s: Seq<Vec<ast1::Chunk>>) -> Option<Seq<char>> {
    if s.len() == 0 {
        None
    } else {
        Some(r1_list(s[0]@))
    }
}

pub closed spec fn ctext(c: Seq<Chunk>, name: Option<Seq<char>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>) -> Seq<char> {
    match name {
        None => r_list(c),
        Some(n) => r_list(c) + (t_begin(prec, n) + r1_args(args)) + r1_list(b),
    }
}

pub closed spec fn cits(c: Seq<Chunk>, name: Option<Seq<char>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>) -> Seq<It> {
    match name {
        None => f_list(c),
        Some(n) => f_list(c) + seq![It::Mark(true, prec, n, f1_args(args))] + f1_list(b),
    }
}

pub proof fn lemma_ctext(c: Seq<Chunk>, name: Option<Seq<char>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>)
    ensures
        match name {
            None => nl(ctext(c, name, prec, args, b)) == nl(r_list(c)),
            Some(n) => {
                &&& nl(ctext(c, name, prec, args, b)) == nl(r_list(c)) + nl(prec) + nl(n) + nl(r1_args(args)) + nl(r1_list(b))
                &&& ctext(c, name, prec, args, b).len() == r_list(c).len() + 8 + prec.len() + n.len() + r1_args(args).len() + r1_list(b).len()
            },
        },
{
    broadcast use super::lemma_nl_add, lemma_t_begin;
}

pub broadcast proof fn lemma_ctext_none(c: Seq<Chunk>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>)
    ensures
        #[trigger] ctext(c, None, prec, args, b) == r_list(c),
{
}

pub broadcast proof fn lemma_cits_none(c: Seq<Chunk>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>)
    ensures
        #[trigger] cits(c, None, prec, args, b) == f_list(c),
{
}

pub broadcast proof fn lemma_ctext_push(c: Seq<Chunk>, n: Seq<char>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>, x: ast1::Chunk)
    ensures
        #[trigger] ctext(c, Some(n), prec, args, b.push(x)) == ctext(c, Some(n), prec, args, b) + r1_chunk(x),
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    assert(ctext(c, Some(n), prec, args, b.push(x)) =~= ctext(c, Some(n), prec, args, b) + r1_chunk(x));
}

pub broadcast proof fn lemma_cits_push(c: Seq<Chunk>, n: Seq<char>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>, x: ast1::Chunk)
    ensures
        #[trigger] cits(c, Some(n), prec, args, b.push(x)) == cits(c, Some(n), prec, args, b) + f1_variant(x.variant),
{
    lemma_f1_list_push(b, x);
    assert(cits(c, Some(n), prec, args, b.push(x)) =~= cits(c, Some(n), prec, args, b) + f1_variant(x.variant));
}

/// an environment is opened
pub proof fn lemma_opened(c: Seq<Chunk>, x: ast1::Chunk, prec: Seq<char>, args: Seq<(String, ast1::Scope)>)
    requires
        match x.variant {
            ast1::ChunkVariant::Command(b) => {
                &&& b.label@ == "begin"@
                &&& b.arguments@.len() > 0
                &&& b.arguments@[0].0@ == prec
                &&& b.arguments@[0].1.variant is Curly
                &&& args == b.arguments@.skip(1)
            },
            _ => false,
        },
    ensures
        match x.variant {
            ast1::ChunkVariant::Command(b) => {
                let n = r1_list(b.arguments@[0].1.chunks@);
                &&& ctext(c, Some(n), prec, args, Seq::empty()) == r_list(c) + r1_chunk(x)
                &&& cits(c, Some(n), prec, args, Seq::empty()) == f_list(c) + f1_variant(x.variant)
                &&& nl(r1_chunk(x)) == nl(t_begin(prec, n)) + nl(r1_args(args))
                &&& nl(r1_chunk(x)) == nl(r1_args(b.arguments@))
                &&& dn1_variant(x.variant) ==> dn1_args(args)
                &&& w1_variant(x.variant) ==> w1_args(args) && w1_list(b.arguments@[0].1.chunks@)
                &&& np1_variant(x.variant) ==> np1_args(args) && name_back(n)
            },
            _ => true,
        },
{
    broadcast use crate::ast1_spec::group_ast1_lists, super::lemma_nl_add;
    match x.variant {
        ast1::ChunkVariant::Command(b) => {
            let n = r1_list(b.arguments@[0].1.chunks@);
            reveal_strlit("begin");
            assert("begin"@ =~= Seq::empty().push('b').push('e').push('g').push('i').push('n'));
            lemma_nl_one('\\');
            broadcast use super::lemma_nl_push, super::lemma_nl_empty;
            assert(nl("begin"@) == 0);
            lemma_mark_begin(b, prec, n, b.arguments@[0].1);
            assert(ctext(c, Some(n), prec, args, Seq::empty()) =~= r_list(c) + r1_chunk(x));
            assert(cits(c, Some(n), prec, args, Seq::empty()) =~= f_list(c) + f1_variant(x.variant));
            assert(b.arguments@ =~= Seq::empty().push(b.arguments@[0]) + args);
            assert(nl(r1_command(b)) == nl(seq!['\\'] + b.label@) + nl(r1_args(b.arguments@)));
        },
        _ => {},
    }
}

/// an environment is closed
pub proof fn lemma_closed(c: Seq<Chunk>, y: Chunk, x: ast1::Chunk, args: Seq<(String, ast1::Scope)>, b: Seq<ast1::Chunk>)
    requires
        match (x.variant, y.variant) {
            (ast1::ChunkVariant::Command(m), ChunkVariant::Environment(e)) => {
                &&& m.label@ == "end"@
                &&& m.arguments@.len() == 1
                &&& m.arguments@[0].0@ == e.prec_end@
                &&& m.arguments@[0].1.variant is Curly
                &&& r1_list(m.arguments@[0].1.chunks@) == e.label@
                &&& r_args(e.arguments@) == r1_args(args)
                &&& f_args(e.arguments@) == f1_args(args)
                &&& r_list(e.content@) == r1_list(b)
                &&& f_list(e.content@) == f1_list(b)
            },
            _ => false,
        },
    ensures
        match y.variant {
            ChunkVariant::Environment(e) => {
                &&& r_list(c.push(y)) == ctext(c, Some(e.label@), e.prec_begin@, args, b) + r1_chunk(x)
                &&& f_list(c.push(y)) == cits(c, Some(e.label@), e.prec_begin@, args, b) + f1_variant(x.variant)
            },
            _ => true,
        },
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    match (x.variant, y.variant) {
        (ast1::ChunkVariant::Command(m), ChunkVariant::Environment(e)) => {
            lemma_mark_end(m, e.prec_end@, e.label@, m.arguments@[0].1);
            lemma_r_list_push(c, y);
            lemma_f_list_push(c, y);
            assert(r_list(c.push(y)) =~= ctext(c, Some(e.label@), e.prec_begin@, args, b) + r1_chunk(x));
            assert(f_list(c.push(y)) =~= cits(c, Some(e.label@), e.prec_begin@, args, b) + f1_variant(x.variant));
        },
        _ => {},
    }
}

proof fn lemma_name_add(a: Seq<char>, b: Seq<char>)
    requires name_ok(a), name_ok(b),
    ensures name_ok(a + b),
{
    let s = a + b;
    if s.contains('%') {
        if a.contains('%') {
            let i = choose|i: int| 0 <= i < a.len() && a[i] == '\\';
            assert(s[i] == '\\');
        } else {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == '%';
            if k < a.len() {
                assert(a[k] == '%');
            } else {
                assert(b[k - a.len()] == '%');
            }
            let i = choose|i: int| 0 <= i < b.len() && b[i] == '\\';
            assert(s[a.len() + i] == '\\');
        }
    }
}

/// a percent sign in what stage 1 makes of a text follows a backslash
pub proof fn lemma_w_name(c: Seq<ast1::Chunk>)
    requires w1_list(c),
    ensures name_ok(r1_list(c)),
    decreases c,
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    if c.len() > 0 {
        let d = c.drop_last();
        let x = c.last();
        assert(c =~= d.push(x));
        lemma_w_name(d);
        match x.variant {
            ast1::ChunkVariant::Text(s) => crate::ast1_spec::lemma_w_text_pct(s@),
            ast1::ChunkVariant::Command(m) => {
                assert(r1_command(m)[0] == '\\');
            },
            ast1::ChunkVariant::Scope(s) => {
                lemma_w_name(s.chunks@);
                let o = seq![crate::ast1_spec::sv_open(s.variant)];
                let e = seq![crate::ast1_spec::sv_close(s.variant)];
                assert(!o.contains('%'));
                assert(!e.contains('%'));
                lemma_name_add(o, r1_list(s.chunks@));
                lemma_name_add(o + r1_list(s.chunks@), e);
            },
        }
        lemma_name_add(r1_list(d), r1_chunk(x));
    }
}

/// the line the open environment starts in, and the line its contents start in
pub open spec fn clines(name: Option<Seq<char>>, at: u32, start: u32, c: Seq<Chunk>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>) -> bool {
    match name {
        None => true,
        Some(n) => at == 1 + nl(r_list(c)) && start == at + nl(t_begin(prec, n)) + nl(r1_args(args)),
    }
}

// ---- line numbers

/// the chunks of a list carry the lines they start in, counted from 1
pub closed spec fn num(c: Seq<Chunk>) -> bool
    decreases c.len(),
{
    c.len() == 0 || (num(c.drop_last()) && c.last().line_no == 1 + nl(r_list(c.drop_last())))
}

pub broadcast proof fn lemma_num_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] num(c),
{
}

pub broadcast proof fn lemma_num_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] num(a.push(c)) == (num(a) && c.line_no == 1 + nl(r_list(a))),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_num_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] num(a + b) ==> num(a),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_num_add(a, b.drop_last());
    }
}

/// the line a list ends in
pub open spec fn end_line(c: Seq<Chunk>) -> int {
    if c.len() == 0 {
        1
    } else {
        c.last().line_no + nl(r_chunk(c.last()))
    }
}

/// a misnumbered chunk that `e` is about
pub open spec fn bad_num(c: Seq<Chunk>, e: InternalError) -> bool {
    match e {
        InternalError::IncorrectChunkLineNumber { expected, got } => exists|i: int|
            0 <= i < c.len() && (#[trigger] c[i]).line_no == got && got != expected && expected == 1 + nl(
                r_list(c.take(i)),
            ),
        _ => false,
    }
}

/// what pushing does to the list
pub open spec fn is_pushed(o: Seq<Chunk>, x: Chunk, f: Seq<Chunk>) -> bool {
    if o.len() > 0 && o.last().variant is Text && x.variant is Text {
        &&& f.len() == o.len()
        &&& f.drop_last() =~= o.drop_last()
        &&& f.last().line_no == o.last().line_no
        &&& f.last().variant is Text
        &&& f.last().variant->Text_0@ == o.last().variant->Text_0@ + x.variant->Text_0@
    } else {
        f =~= o.push(x)
    }
}

// ---- C15, stage 2

/// whether a text somewhere holds a closing bracket, or a name of an environment a backslash or bracket
pub closed spec fn cl_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => exists|i: int| 0 <= i < s@.len() && is_close(#[trigger] s@[i]),
        ChunkVariant::Command(c) => cl_args(c.arguments@),
        ChunkVariant::Scope(s) => cl_list(s.chunks@),
        ChunkVariant::Environment(e) => cl_name(e.label@) || cl_args(e.arguments@) || cl_list(e.content@),
    }
}

pub closed spec fn cl_name(s: Seq<char>) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i] == '\\' || is_open(s[i]) || is_close(s[i]))
}

pub closed spec fn cl_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() > 0 && (cl_list(c.drop_last()) || cl_variant(c.last().variant))
}

pub closed spec fn cl_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() > 0 && (cl_args(c.drop_last()) || cl_list(c.last().1.chunks@))
}

pub proof fn lemma_c15_variant(v: ChunkVariant)
    ensures w_variant(v) && !cl_variant(v) ==> ok_variant(v),
    decreases v,
{
    broadcast use crate::ast1_spec::lemma_w_txt, crate::ast1_spec::lemma_txt_def, crate::ast1_spec::lemma_label;
    match v {
        ChunkVariant::Text(s) => {},
        ChunkVariant::Command(c) => lemma_c15_args(c.arguments@),
        ChunkVariant::Scope(s) => lemma_c15_list(s.chunks@),
        ChunkVariant::Environment(e) => {
            lemma_c15_args(e.arguments@);
            lemma_c15_list(e.content@);
            if name_ok(e.label@) && !cl_name(e.label@) {
                assert forall|i: int| 0 <= i < e.label@.len() implies !special(#[trigger] e.label@[i]) by {
                    if e.label@[i] == '%' {
                        assert(e.label@.contains('%'));
                        let k = choose|k: int| 0 <= k < e.label@.len() && e.label@[k] == '\\';
                    }
                }
            }
        },
    }
}

pub proof fn lemma_c15_list(c: Seq<Chunk>)
    ensures w_list(c) && !cl_list(c) ==> ok_list(c),
    decreases c,
{
    if c.len() > 0 {
        lemma_c15_list(c.drop_last());
        lemma_c15_variant(c.last().variant);
        assert(ok_chunk(c.last()) == ok_variant(c.last().variant));
    }
}

pub proof fn lemma_c15_args(c: Seq<(String, Scope)>)
    ensures w_args(c) && !cl_args(c) ==> ok_args(c),
    decreases c,
{
    if c.len() > 0 {
        lemma_c15_args(c.drop_last());
        lemma_c15_list(c.last().1.chunks@);
        assert(w_scope(c.last().1) == w_list(c.last().1.chunks@));
        assert(ok_scope(c.last().1) == ok_list(c.last().1.chunks@));
    }
}

pub proof fn lemma_dn_num(c: Seq<Chunk>)
    requires dn_list(c),
    ensures num(c),
    decreases c,
{
    if c.len() > 0 {
        assert(c =~= c.drop_last().push(c.last()));
        lemma_dn_list_push(c.drop_last(), c.last());
        lemma_dn_num(c.drop_last());
    }
}

/// C15, stage 2
pub proof fn lemma_c15(d: Document)
    requires w_list(d.0@), dn_list(d.0@), !cl_list(d.0@),
    ensures num(d.0@) && ok_list(d.0@),
{
    lemma_c15_list(d.0@);
    lemma_dn_num(d.0@);
}

// ---- pushing stage 2 chunks onto a stage 1 document

/// no two texts next to each other, begins and ends of environments counted
pub closed spec fn sep(s: Seq<It>) -> bool {
    forall|i: int| 0 < i < s.len() ==> !(#[trigger] s[i - 1] is Text && s[i] is Text)
}

pub proof fn lemma_sep_prefix(a: Seq<It>, b: Seq<It>)
    requires sep(a + b),
    ensures sep(a),
{
    assert forall|i: int| 0 < i < a.len() implies !(#[trigger] a[i - 1] is Text && a[i] is Text) by {
        assert((a + b)[i - 1] == a[i - 1] && (a + b)[i] == a[i]);
    }
}

pub proof fn lemma_pushed1(o: Seq<ast1::Chunk>, x: ast1::Chunk, f: Seq<ast1::Chunk>)
    requires crate::ast1_spec::is_pushed(o, x, f),
    ensures
        r1_list(f) == r1_list(o) + r1_variant(x.variant),
        dnf1(o, 1) && x.line_no == 1 + nl(r1_list(o)) && dn1_variant(x.variant) ==> dnf1(f, 1),
        sep(f1_list(o) + f1_variant(x.variant)) ==> f1_list(f) == f1_list(o) + f1_variant(x.variant),
        np1_list(o) && np1_variant(x.variant) ==> np1_list(f),
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    lemma_dnf1_push(o, x, 1);
    lemma_f1_list_push(o, x);
    if o.len() > 0 && o.last().variant is Text && x.variant is Text {
        let d = o.drop_last();
        let l = o.last();
        let k = f.last();
        assert(o =~= d.push(l));
        assert(f =~= d.push(k));
        lemma_dnf1_push(d, l, 1);
        lemma_dnf1_push(d, k, 1);
        lemma_f1_list_push(d, l);
        lemma_np1_list_push(d, l);
        lemma_np1_list_push(d, k);
        def_np1_variant(k.variant);
        assert(r1_list(f) =~= r1_list(o) + r1_variant(x.variant));
        let b = f1_list(o) + f1_variant(x.variant);
        let n = f1_list(o).len() as int;
        def_f1_variant(l.variant);
        def_f1_variant(x.variant);
        assert(f1_list(o) =~= f1_list(d).push(It::Text(l.variant->Text_0@)));
        assert(f1_variant(x.variant) =~= seq![It::Text(x.variant->Text_0@)]);
        assert(b[n - 1] is Text && b[n] is Text);
    } else {
        assert(f == o.push(x));
        lemma_np1_list_push(o, x);
    }
}

// ---- C07: a parsed document comes back as it was

pub proof fn lemma_pf_np(c: Seq<ast1::Chunk>)
    requires crate::ast1_spec::pf_list(c),
    ensures np1_list(c),
    decreases c, 0int,
{
    broadcast use crate::ast1_spec::group_ast1_lists, crate::ast1_spec::group_ast1;
    if c.len() > 0 {
        let d = c.drop_last();
        assert(c =~= d.push(c.last()));
        lemma_pf_np(d);
        lemma_np1_list_push(d, c.last());
        match c.last().variant {
            ast1::ChunkVariant::Text(s) => {},
            ast1::ChunkVariant::Command(m) => lemma_pf_np_args(m.arguments@),
            ast1::ChunkVariant::Scope(s) => lemma_pf_np(s.chunks@),
        }
    }
}

pub proof fn lemma_pf_np_args(c: Seq<(String, ast1::Scope)>)
    requires crate::ast1_spec::pf_args(c),
    ensures
        np1_args(c),
        c.len() > 0 ==> crate::ast1_spec::self_parse(c[0].1.chunks@) && np1_args(c.skip(1)),
    decreases c, 1int,
{
    broadcast use crate::ast1_spec::group_ast1_lists, crate::ast1_spec::group_ast1;
    if c.len() > 0 {
        let d = c.drop_last();
        assert(c =~= d.push(c.last()));
        lemma_pf_np_args(d);
        lemma_pf_np(c.last().1.chunks@);
        lemma_np1_args_push(d, c.last());
        if d.len() > 0 {
            assert(c.skip(1) =~= d.skip(1).push(c.last()));
            lemma_np1_args_push(d.skip(1), c.last());
        } else {
            assert(c.skip(1) =~= Seq::empty());
        }
    }
}

/// the same chunks in the same lines, at every depth
pub closed spec fn same_variant(a: ast1::ChunkVariant, b: ast1::ChunkVariant) -> bool
    decreases a,
{
    match (a, b) {
        (ast1::ChunkVariant::Text(s), ast1::ChunkVariant::Text(t)) => s@ == t@,
        (ast1::ChunkVariant::Command(s), ast1::ChunkVariant::Command(t)) => s.label@ == t.label@ && same_args(s.arguments@, t.arguments@),
        (ast1::ChunkVariant::Scope(s), ast1::ChunkVariant::Scope(t)) => s.variant == t.variant && same_list(s.chunks@, t.chunks@),
        _ => false,
    }
}

pub closed spec fn same_list(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>) -> bool
    decreases a,
{
    a.len() == b.len() && (a.len() == 0 || (same_list(a.drop_last(), b.drop_last()) && a.last().line_no == b.last().line_no
        && same_variant(a.last().variant, b.last().variant)))
}

pub closed spec fn same_args(a: Seq<(String, ast1::Scope)>, b: Seq<(String, ast1::Scope)>) -> bool
    decreases a,
{
    a.len() == b.len() && (a.len() == 0 || (same_args(a.drop_last(), b.drop_last()) && a.last().0@ == b.last().0@
        && a.last().1.variant == b.last().1.variant && same_list(a.last().1.chunks@, b.last().1.chunks@)))
}

pub open spec fn same_chunk(a: ast1::Chunk, b: ast1::Chunk) -> bool {
    a.line_no == b.line_no && same_variant(a.variant, b.variant)
}

pub open spec fn same_arg(a: (String, ast1::Scope), b: (String, ast1::Scope)) -> bool {
    a.0@ == b.0@ && a.1.variant == b.1.variant && same_list(a.1.chunks@, b.1.chunks@)
}

/// one by one
pub broadcast proof fn lemma_same_each(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>)
    ensures
        #[trigger] same_list(a, b) <==> a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> same_chunk(#[trigger] a[j], b[j]),
    decreases a.len(),
{
    if a.len() > 0 && a.len() == b.len() {
        let (c, d) = (a.drop_last(), b.drop_last());
        lemma_same_each(c, d);
        if forall|j: int| 0 <= j < a.len() ==> same_chunk(#[trigger] a[j], b[j]) {
            assert forall|j: int| 0 <= j < c.len() implies same_chunk(#[trigger] c[j], d[j]) by {
                assert(same_chunk(a[j], b[j]));
            }
        }
        if same_list(a, b) {
            assert forall|j: int| 0 <= j < a.len() implies same_chunk(#[trigger] a[j], b[j]) by {
                if j < c.len() {
                    assert(same_chunk(c[j], d[j]));
                }
            }
        }
    }
}

pub broadcast proof fn lemma_same_each_arg(a: Seq<(String, ast1::Scope)>, b: Seq<(String, ast1::Scope)>)
    ensures
        #[trigger] same_args(a, b) <==> a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> same_arg(#[trigger] a[j], b[j]),
    decreases a.len(),
{
    if a.len() > 0 && a.len() == b.len() {
        let (c, d) = (a.drop_last(), b.drop_last());
        lemma_same_each_arg(c, d);
        if forall|j: int| 0 <= j < a.len() ==> same_arg(#[trigger] a[j], b[j]) {
            assert forall|j: int| 0 <= j < c.len() implies same_arg(#[trigger] c[j], d[j]) by {
                assert(same_arg(a[j], b[j]));
            }
        }
        if same_args(a, b) {
            assert forall|j: int| 0 <= j < a.len() implies same_arg(#[trigger] a[j], b[j]) by {
                if j < c.len() {
                    assert(same_arg(c[j], d[j]));
                }
            }
        }
    }
}

pub broadcast proof fn lemma_same_variant(a: ast1::ChunkVariant, b: ast1::ChunkVariant)
    ensures
        #[trigger] same_variant(a, b) == (match (a, b) {
            (ast1::ChunkVariant::Text(s), ast1::ChunkVariant::Text(t)) => s@ == t@,
            (ast1::ChunkVariant::Command(s), ast1::ChunkVariant::Command(t)) => s.label@ == t.label@ && same_args(s.arguments@, t.arguments@),
            (ast1::ChunkVariant::Scope(s), ast1::ChunkVariant::Scope(t)) => s.variant == t.variant && same_list(s.chunks@, t.chunks@),
            _ => false,
        }),
{
}

/// equal pieces and names that read back: the same chunks
pub proof fn lemma_nd_eq(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>)
    requires f1_list(a) == f1_list(b), np1_list(a), np1_list(b),
    ensures crate::ast1_spec::nd_list(a) == crate::ast1_spec::nd_list(b), a.len() == b.len(),
    decreases a, 0int,
{
    lemma_f1_len(a);
    lemma_f1_len(b);
    if a.len() > 0 {
        let da = a.drop_last();
        let db = b.drop_last();
        assert(a =~= da.push(a.last()) && b =~= db.push(b.last()));
        lemma_f1_list_push(da, a.last());
        lemma_f1_list_push(db, b.last());
        lemma_np1_list_push(da, a.last());
        lemma_np1_list_push(db, b.last());
        lemma_f1_one(a.last().variant);
        lemma_f1_one(b.last().variant);
        assert(f1_list(da) =~= f1_list(a).drop_last());
        assert(f1_list(db) =~= f1_list(b).drop_last());
        assert(f1_variant(a.last().variant) =~= seq![f1_list(a).last()]);
        assert(f1_variant(b.last().variant) =~= seq![f1_list(b).last()]);
        lemma_nd_eq(da, db);
        lemma_nd_eq_variant(a.last().variant, b.last().variant);
        crate::ast1_spec::lemma_nd_list_push(da, a.last());
        crate::ast1_spec::lemma_nd_list_push(db, b.last());
    } else {
        assert(a =~= b);
    }
}

proof fn lemma_nd_eq_variant(a: ast1::ChunkVariant, b: ast1::ChunkVariant)
    requires f1_variant(a) == f1_variant(b), np1_variant(a), np1_variant(b),
    ensures crate::ast1_spec::nd_variant(a) == crate::ast1_spec::nd_variant(b),
    decreases a, 1int,
{
    def_f1_variant(a);
    def_f1_variant(b);
    crate::ast1_spec::def_nd_variant(a);
    crate::ast1_spec::def_nd_variant(b);
    lemma_f1_one(a);
    lemma_f1_one(b);
    assert(f1_variant(a)[0] == f1_variant(b)[0]);
    match (a, b) {
        (ast1::ChunkVariant::Text(s), ast1::ChunkVariant::Text(t)) => {},
        (ast1::ChunkVariant::Scope(s), ast1::ChunkVariant::Scope(t)) => lemma_nd_eq(s.chunks@, t.chunks@),
        (ast1::ChunkVariant::Command(s), ast1::ChunkVariant::Command(t)) => {
            def_f1_command(s);
            def_f1_command(t);
            def_np1_command(s);
            def_np1_command(t);
            if is_env(s) {
                assert(is_env(t));
                lemma_nd_eq_args(s.arguments@, t.arguments@, 1);
                let x = s.arguments@[0];
                let y = t.arguments@[0];
                assert(r1_list(x.1.chunks@) == r1_list(y.1.chunks@));
                assert(crate::ast1_spec::nd_list(x.1.chunks@) == crate::ast1_spec::nd_list(y.1.chunks@));
                lemma_nd_args_first(s.arguments@);
                lemma_nd_args_first(t.arguments@);
            } else {
                assert(!is_env(t));
                assert(s.arguments@.skip(0) =~= s.arguments@ && t.arguments@.skip(0) =~= t.arguments@);
                lemma_nd_eq_args(s.arguments@, t.arguments@, 0);
            }
        },
        _ => {},
    }
}

proof fn lemma_nd_eq_args(a: Seq<(String, ast1::Scope)>, b: Seq<(String, ast1::Scope)>, k: int)
    requires
        0 <= k <= a.len(),
        k <= b.len(),
        f1_args(a.skip(k)) == f1_args(b.skip(k)),
        np1_args(a.skip(k)),
        np1_args(b.skip(k)),
    ensures crate::ast1_spec::nd_args(a.skip(k)) == crate::ast1_spec::nd_args(b.skip(k)),
    decreases a, 0int,
{
    let x = a.skip(k);
    let y = b.skip(k);
    lemma_f1_args_len(x);
    lemma_f1_args_len(y);
    if x.len() > 0 {
        let da = a.drop_last();
        let db = b.drop_last();
        assert(x =~= da.skip(k).push(a.last()));
        assert(y =~= db.skip(k).push(b.last()));
        lemma_f1_args_push(da.skip(k), a.last());
        lemma_f1_args_push(db.skip(k), b.last());
        lemma_np1_args_push(da.skip(k), a.last());
        lemma_np1_args_push(db.skip(k), b.last());
        assert(f1_args(da.skip(k)) =~= f1_args(x).drop_last());
        assert(f1_args(db.skip(k)) =~= f1_args(y).drop_last());
        assert(f1_args(x).last() == f1_args(y).last());
        def_np1_scope(a.last().1);
        def_np1_scope(b.last().1);
        lemma_nd_eq_args(da, db, k);
        lemma_nd_eq(a.last().1.chunks@, b.last().1.chunks@);
        crate::ast1_spec::lemma_nd_args_push(da.skip(k), a.last());
        crate::ast1_spec::lemma_nd_args_push(db.skip(k), b.last());
    } else {
        assert(x =~= y);
    }
}

proof fn lemma_nd_args_first(a: Seq<(String, ast1::Scope)>)
    requires a.len() > 0,
    ensures
        crate::ast1_spec::nd_args(a) == seq![crate::ast1_spec::NdArg { pre: a[0].0@, var: a[0].1.variant, body: crate::ast1_spec::nd_list(a[0].1.chunks@) }]
            + crate::ast1_spec::nd_args(a.skip(1)),
    decreases a.len(),
{
    let d = a.drop_last();
    assert(a =~= d.push(a.last()));
    crate::ast1_spec::lemma_nd_args_push(d, a.last());
    let one = seq![crate::ast1_spec::NdArg { pre: a[0].0@, var: a[0].1.variant, body: crate::ast1_spec::nd_list(a[0].1.chunks@) }];
    if d.len() > 0 {
        lemma_nd_args_first(d);
        assert(a.skip(1) =~= d.skip(1).push(a.last()));
        crate::ast1_spec::lemma_nd_args_push(d.skip(1), a.last());
        assert(crate::ast1_spec::nd_args(a) =~= one + crate::ast1_spec::nd_args(a.skip(1)));
    } else {
        crate::ast1_spec::lemma_nd_args_empty(d);
        crate::ast1_spec::lemma_nd_args_empty(a.skip(1));
        assert(crate::ast1_spec::nd_args(a) =~= one + crate::ast1_spec::nd_args(a.skip(1)));
    }
}

pub proof fn lemma_f1_one(v: ast1::ChunkVariant)
    ensures f1_variant(v).len() == 1, (f1_variant(v)[0] is Text) == (v is Text),
{
    def_f1_variant(v);
    match v {
        ast1::ChunkVariant::Command(c) => def_f1_command(c),
        _ => {},
    }
}

pub proof fn lemma_f1_len(c: Seq<ast1::Chunk>)
    ensures
        f1_list(c).len() == c.len(),
        crate::ast1_spec::nd_list(c).len() == c.len(),
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] f1_list(c)[i] is Text) == (crate::ast1_spec::nd_list(c)[i] is Txt),
    decreases c.len(),
{
    if c.len() > 0 {
        let d = c.drop_last();
        assert(c =~= d.push(c.last()));
        lemma_f1_list_push(d, c.last());
        crate::ast1_spec::lemma_nd_list_push(d, c.last());
        crate::ast1_spec::def_nd_variant(c.last().variant);
        lemma_f1_one(c.last().variant);
        lemma_f1_len(d);
    } else {
        lemma_f1_list_empty(c);
        crate::ast1_spec::lemma_nd_list_empty(c);
    }
}

proof fn lemma_f1_args_len(c: Seq<(String, ast1::Scope)>)
    ensures f1_args(c).len() == c.len(),
    decreases c.len(),
{
    if c.len() > 0 {
        assert(c =~= c.drop_last().push(c.last()));
        lemma_f1_args_push(c.drop_last(), c.last());
        lemma_f1_args_len(c.drop_last());
    } else {
        lemma_f1_args_empty(c);
    }
}

/// no two texts of a parsed document are next to each other
pub proof fn lemma_na_sep(c: Seq<ast1::Chunk>)
    requires crate::ast1_spec::na(crate::ast1_spec::nd_list(c)),
    ensures sep(f1_list(c)),
{
    lemma_f1_len(c);
    let n = crate::ast1_spec::nd_list(c);
    assert forall|i: int| 0 < i < f1_list(c).len() implies !(#[trigger] f1_list(c)[i - 1] is Text && f1_list(c)[i] is Text) by {
        assert(!(n[i - 1] is Txt && n[i] is Txt));
    }
}

/// the same pieces, each numbered by the line it starts in: the same chunks in the same lines
pub proof fn lemma_same(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>)
    requires crate::ast1_spec::nd_list(a) == crate::ast1_spec::nd_list(b), dn1_list(a), dn1_list(b),
    ensures same_list(a, b), r1_list(a) == r1_list(b),
    decreases a, 0int,
{
    lemma_f1_len(a);
    lemma_f1_len(b);
    if a.len() > 0 {
        let da = a.drop_last();
        let db = b.drop_last();
        let x = a.last();
        let y = b.last();
        assert(a =~= da.push(x) && b =~= db.push(y));
        crate::ast1_spec::lemma_nd_list_push(da, x);
        crate::ast1_spec::lemma_nd_list_push(db, y);
        crate::ast1_spec::lemma_dn_list_push(da, x);
        crate::ast1_spec::lemma_dn_list_push(db, y);
        crate::ast1_spec::lemma_r_list_push(da, x);
        crate::ast1_spec::lemma_r_list_push(db, y);
        assert(crate::ast1_spec::nd_list(da) =~= crate::ast1_spec::nd_list(a).drop_last());
        assert(crate::ast1_spec::nd_list(db) =~= crate::ast1_spec::nd_list(b).drop_last());
        assert(crate::ast1_spec::nd_list(a).last() == crate::ast1_spec::nd_variant(x.variant));
        assert(crate::ast1_spec::nd_list(b).last() == crate::ast1_spec::nd_variant(y.variant));
        lemma_same(da, db);
        lemma_same_variants(x.variant, y.variant);
        broadcast use crate::ast1_spec::group_ast1_lists;
        assert(r1_chunk(x) == r1_variant(x.variant) && r1_chunk(y) == r1_variant(y.variant));
        assert(r1_list(a) == r1_list(b));
        assert(x.line_no == y.line_no);
    } else {
        assert(a =~= b);
    }
}

proof fn lemma_same_variants(x: ast1::ChunkVariant, y: ast1::ChunkVariant)
    requires crate::ast1_spec::nd_variant(x) == crate::ast1_spec::nd_variant(y), dn1_variant(x), dn1_variant(y),
    ensures same_variant(x, y), r1_variant(x) == r1_variant(y),
    decreases x, 1int,
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    crate::ast1_spec::def_nd_variant(x);
    crate::ast1_spec::def_nd_variant(y);
    match (x, y) {
        (ast1::ChunkVariant::Command(s), ast1::ChunkVariant::Command(t)) => {
            assert(dn1_command(s) && dn1_command(t));
            lemma_same_args(s.arguments@, t.arguments@);
            assert(r1_command(s) == r1_command(t));
        },
        (ast1::ChunkVariant::Scope(s), ast1::ChunkVariant::Scope(t)) => {
            assert(dn1_scope(s) && dn1_scope(t));
            lemma_same(s.chunks@, t.chunks@);
            assert(r1_scope(s) == r1_scope(t));
        },
        _ => {},
    }
}

proof fn lemma_same_args(a: Seq<(String, ast1::Scope)>, b: Seq<(String, ast1::Scope)>)
    requires crate::ast1_spec::nd_args(a) == crate::ast1_spec::nd_args(b), dn1_args(a), dn1_args(b),
    ensures same_args(a, b), r1_args(a) == r1_args(b),
    decreases a, 0int,
{
    lemma_nd_args_len(a);
    lemma_nd_args_len(b);
    if a.len() > 0 {
        let da = a.drop_last();
        let db = b.drop_last();
        let x = a.last();
        let y = b.last();
        assert(a =~= da.push(x) && b =~= db.push(y));
        crate::ast1_spec::lemma_nd_args_push(da, x);
        crate::ast1_spec::lemma_nd_args_push(db, y);
        assert(crate::ast1_spec::nd_args(da) =~= crate::ast1_spec::nd_args(a).drop_last());
        assert(crate::ast1_spec::nd_args(db) =~= crate::ast1_spec::nd_args(b).drop_last());
        assert(crate::ast1_spec::nd_args(a).last().body == crate::ast1_spec::nd_list(x.1.chunks@));
        assert(crate::ast1_spec::nd_args(b).last().body == crate::ast1_spec::nd_list(y.1.chunks@));
        broadcast use crate::ast1_spec::group_ast1_lists;
        lemma_same_args(da, db);
        assert(dn1_scope(x.1) && dn1_scope(y.1));
        lemma_same(x.1.chunks@, y.1.chunks@);
    } else {
        assert(a =~= b);
    }
}

proof fn lemma_nd_args_len(c: Seq<(String, ast1::Scope)>)
    ensures crate::ast1_spec::nd_args(c).len() == c.len(),
    decreases c.len(),
{
    if c.len() > 0 {
        assert(c =~= c.drop_last().push(c.last()));
        crate::ast1_spec::lemma_nd_args_push(c.drop_last(), c.last());
        lemma_nd_args_len(c.drop_last());
    } else {
        crate::ast1_spec::lemma_nd_args_empty(c);
    }
}

/// C07 for documents: what `from_str` makes of a source comes back from stage 2 as it was
pub fn c07_document(s: &str)
    requires s@.len() < u32::MAX,
{
    match ast1::Document::from_str(s) {
        Err(_) => {},
        Ok(d) => {
            let ghost a = d.0@;
            proof {
                crate::ast1_spec::lemma_lex_size(s@);
                crate::ast1_spec::lemma_strip(s@);
                crate::ast1_spec::lemma_na(s@);
                lemma_pf_np(a);
                lemma_na_sep(a);
            }
            match Document::try_from(d) {
                Err(_) => {},
                Ok(t) => {
                    let r = ast1::Document::from(t);
                    proof {
                        lemma_nd_eq(a, r.0@);
                        lemma_same(a, r.0@);
                    }
                    assert(same_list(a, r.0@));
                },
            }
        },
    }
}

/// C07 for groups
pub fn c07_scope(s: ast1::Scope)
    requires dn1_scope(s), crate::ast1_spec::pf_list(s.chunks@), r1_scope(s).len() < u32::MAX,
{
    let ghost a = s;
    proof {
        broadcast use crate::ast1_spec::group_ast1_lists;
        lemma_pf_np(a.chunks@);
        def_np1_scope(a);
    }
    match Scope::try_from(s) {
        Err(_) => {},
        Ok(t) => {
            let r = t.to_ast1_scope();
            proof {
                broadcast use crate::ast1_spec::group_ast1_lists;
                def_np1_scope(r);
                lemma_nd_eq(a.chunks@, r.chunks@);
                lemma_same(a.chunks@, r.chunks@);
            }
            assert(same_list(a.chunks@, r.chunks@) && a.variant == r.variant);
        },
    }
}

/// C07 for commands
pub fn c07_command(s: ast1::Command)
    requires
        dn1_command(s),
        crate::ast1_spec::pf_args(s.arguments@),
        r1_command(s).len() < u32::MAX,
        s.label@ != "begin"@ && s.label@ != "end"@,
{
    let ghost a = s;
    proof {
        broadcast use crate::ast1_spec::group_ast1_lists;
        lemma_pf_np_args(a.arguments@);
        def_np1_command(a);
    }
    match Command::try_from(s) {
        Err(_) => {},
        Ok(t) => {
            let r = ast1::Command::from(t);
            proof {
                broadcast use crate::ast1_spec::group_ast1_lists;
                let x = ast1::ChunkVariant::Command(a);
                let y = ast1::ChunkVariant::Command(r);
                def_f1_variant(x);
                def_f1_variant(y);
                def_np1_variant(x);
                def_np1_variant(y);
                def_f1_command(a);
                lemma_nd_eq_variant(x, y);
                crate::ast1_spec::def_nd_variant(x);
                crate::ast1_spec::def_nd_variant(y);
                lemma_same_args(a.arguments@, r.arguments@);
            }
            assert(a.label@ == r.label@ && same_args(a.arguments@, r.arguments@));
        },
    }
}


// ---- C14: the first fault of a stage 1 document that stage 2 refuses

/// how stage 1 chunks print
pub closed spec fn rn(x: Nd) -> Seq<char>
    decreases x,
{
    match x {
        Nd::Txt(s) => s,
        Nd::Cmd(l, a) => seq!['\\'] + l + rn_args(a),
        Nd::Grp(v, b) => seq![crate::ast1_spec::sv_open(v)] + rn_list(b) + seq![crate::ast1_spec::sv_close(v)],
    }
}

pub closed spec fn rn_list(l: Seq<Nd>) -> Seq<char>
    decreases l,
{
    if l.len() == 0 {
        Seq::empty()
    } else {
        rn_list(l.drop_last()) + rn(l.last())
    }
}

pub closed spec fn rn_args(a: Seq<NdArg>) -> Seq<char>
    decreases a,
{
    if a.len() == 0 {
        Seq::empty()
    } else {
        rn_args(a.drop_last()) + (a.last().pre + (seq![crate::ast1_spec::sv_open(a.last().var)] + rn_list(a.last().body) + seq![crate::ast1_spec::sv_close(a.last().var)]))
    }
}

/// begin or end
pub open spec fn mark(x: Nd) -> bool {
    x is Cmd && (x->Cmd_0 == "begin"@ || x->Cmd_0 == "end"@)
}

/// a curly argument comes first
pub open spec fn curly(x: Nd) -> bool {
    x is Cmd && x->Cmd_1.len() > 0 && x->Cmd_1[0].var is Curly
}

/// the names of the open environments, and where the outermost begins
pub ghost struct ES {
    pub names: Seq<Seq<Nd>>,
    pub open: int,
}

/// a fault, its line counted from a line that many further up
pub open spec fn off(e: Option<PErr>, k: int) -> Option<PErr> {
    match e {
        None => None,
        Some(p) => Some(PErr { line: p.line + k, kind: p.kind }),
    }
}

pub open spec fn orelse(a: Option<PErr>, b: Option<PErr>) -> Option<PErr> {
    if a is Some { a } else { b }
}

/// one chunk, which stands in line `at`: what is wrong within it, and within the environment it ends
pub open spec fn e2_step(st: ES, x: Nd, i: int, at: int, inner: Option<PErr>, env: Option<PErr>) -> Result<ES, PErr> {
    if !mark(x) {
        if st.names.len() == 0 && inner is Some {
            Err(PErr { line: inner->Some_0.line + at - 1, kind: inner->Some_0.kind })
        } else {
            Ok(st)
        }
    } else if !curly(x) {
        Err(PErr { line: at, kind: EKind::NoEnvironmentLabel })
    } else if x->Cmd_0 == "begin"@ {
        Ok(ES { names: st.names.push(x->Cmd_1[0].body), open: if st.names.len() == 0 { i } else { st.open } })
    } else if st.names.len() == 0 || st.names.last() != x->Cmd_1[0].body {
        Err(PErr { line: at, kind: EKind::UnexpectedEnd(rn_list(x->Cmd_1[0].body)) })
    } else if x->Cmd_1.len() > 1 {
        Err(PErr { line: at, kind: EKind::TooManyArgsEnd })
    } else if st.names.len() == 1 && env is Some {
        Err(env->Some_0)
    } else {
        Ok(ES { names: st.names.drop_last(), open: st.open })
    }
}

pub closed spec fn e2_at(l: Seq<Nd>, n: nat) -> Option<PErr>
    decreases n, 0int, 0int,
{
    if rn_list(l).len() < n {
        e2_list(l)
    } else {
        None
    }
}

/// in the arguments of a command, lines counted from that of the first
pub closed spec fn e2_args(a: Seq<NdArg>, n: nat) -> Option<PErr>
    decreases n, 0int, a.len(),
{
    if a.len() == 0 {
        None
    } else {
        orelse(e2_args(a.drop_last(), n), off(e2_at(a.last().body, n), (nl(rn_args(a.drop_last())) + nl(a.last().pre)) as int))
    }
}

/// within a chunk
pub closed spec fn e2_inner(x: Nd, n: nat) -> Option<PErr>
    decreases n, 1int, 0int,
{
    match x {
        Nd::Txt(s) => None,
        Nd::Grp(v, b) => e2_at(b, n),
        Nd::Cmd(l, a) => off(e2_args(a, n), nl(l) as int),
    }
}

/// within the environment from `open` to `i`: first its arguments, then its contents
pub closed spec fn e2_env(l: Seq<Nd>, open: int, i: int, n: nat) -> Option<PErr>
    decreases n, 1int, 0int,
{
    let a = l[open]->Cmd_1;
    orelse(
        off(e2_args(a.skip(1), n), (nl(rn_list(l.take(open))) + nl(a[0].pre) + nl(rn_list(a[0].body))) as int),
        off(e2_at(l.subrange(open + 1, i), n), nl(rn_list(l.take(open + 1))) as int),
    )
}

/// the first `i` chunks
pub closed spec fn e2_run(l: Seq<Nd>, i: nat) -> Result<ES, PErr>
    decreases rn_list(l).len(), 2int, i,
{
    if i == 0 {
        Ok(ES { names: Seq::empty(), open: 0 })
    } else {
        match e2_run(l, (i - 1) as nat) {
            Err(e) => Err(e),
            Ok(st) => e2_step(st, l[i - 1], i - 1, (1 + nl(rn_list(l.take(i - 1)))) as int, e2_inner(l[i - 1], rn_list(l).len()), e2_env(l, st.open, i - 1, rn_list(l).len())),
        }
    }
}

/// the first fault in a list of stage 1 chunks, if any
pub closed spec fn e2_list(l: Seq<Nd>) -> Option<PErr>
    decreases rn_list(l).len(), 3int, 0int,
{
    match e2_run(l, l.len()) {
        Err(e) => Some(e),
        Ok(st) => if st.names.len() == 0 {
            None
        } else {
            Some(PErr { line: (1 + nl(rn_list(l.take(st.open)))) as int, kind: EKind::UnclosedEnvironment(rn_list(st.names[0])) })
        },
    }
}

/// in a command that is not begin or end
pub open spec fn e2_cmd(l: Seq<char>, a: Seq<NdArg>) -> Option<PErr> {
    off(e2_args(a, rn_args(a).len()), nl(l) as int)
}

/// the fault is what is reported, and nothing is reported without one
pub open spec fn told<T>(r: Result<T, crate::Error>, e: Option<PErr>) -> bool {
    match (r, e) {
        (Ok(_), None) => true,
        (Err(x), Some(p)) => says(x, p),
        _ => false,
    }
}

/// what a source is refused for at stages 1 and 2
pub open spec fn e2_src(s: Seq<char>) -> Option<PErr> {
    match p_doc(s) {
        Err(e) => Some(e),
        Ok(l) => e2_list(l),
    }
}

proof fn lemma_rn_push(l: Seq<Nd>, x: Nd)
    ensures rn_list(l.push(x)) == rn_list(l) + rn(x),
{
    assert(l.push(x).drop_last() =~= l);
}

proof fn lemma_rn_args_push(l: Seq<NdArg>, x: NdArg)
    ensures rn_args(l.push(x)) == rn_args(l) + (x.pre + (seq![crate::ast1_spec::sv_open(x.var)] + rn_list(x.body) + seq![crate::ast1_spec::sv_close(x.var)])),
{
    assert(l.push(x).drop_last() =~= l);
}

pub proof fn lemma_rn_nd(c: Seq<ast1::Chunk>)
    ensures rn_list(nd_list(c)) == r1_list(c),
    decreases c, 0int,
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    if c.len() > 0 {
        let d = c.drop_last();
        let x = c.last();
        assert(c =~= d.push(x));
        crate::ast1_spec::lemma_nd_list_push(d, x);
        lemma_rn_push(nd_list(d), nd_variant(x.variant));
        lemma_rn_nd(d);
        crate::ast1_spec::def_nd_variant(x.variant);
        assert(r1_chunk(x) == r1_variant(x.variant));
        match x.variant {
            ast1::ChunkVariant::Text(s) => {},
            ast1::ChunkVariant::Command(s) => {
                lemma_rn_nd_args(s.arguments@);
                assert(rn(nd_variant(x.variant)) == r1_command(s));
            },
            ast1::ChunkVariant::Scope(s) => {
                lemma_rn_nd(s.chunks@);
                assert(rn(nd_variant(x.variant)) == r1_scope(s));
            },
        }
    } else {
        crate::ast1_spec::lemma_nd_list_empty(c);
    }
}

pub proof fn lemma_rn_nd_args(c: Seq<(String, ast1::Scope)>)
    ensures rn_args(nd_args(c)) == r1_args(c),
    decreases c, 0int,
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    if c.len() > 0 {
        let d = c.drop_last();
        let x = c.last();
        assert(c =~= d.push(x));
        crate::ast1_spec::lemma_nd_args_push(d, x);
        lemma_rn_args_push(nd_args(d), NdArg { pre: x.0@, var: x.1.variant, body: nd_list(x.1.chunks@) });
        lemma_rn_nd_args(d);
        lemma_rn_nd(x.1.chunks@);
        assert(r1_scope(x.1) == seq![crate::ast1_spec::sv_open(x.1.variant)] + r1_list(x.1.chunks@) + seq![crate::ast1_spec::sv_close(x.1.variant)]);
        assert(r1_args(c) == r1_args(d) + (x.0@ + r1_scope(x.1)));
    } else {
        crate::ast1_spec::lemma_nd_args_empty(c);
    }
}

pub proof fn lemma_nd_at(c: Seq<ast1::Chunk>, i: int)
    requires 0 <= i < c.len(),
    ensures nd_list(c).len() == c.len(), nd_list(c)[i] == nd_variant(c[i].variant), nd_list(c).take(i) == nd_list(c.take(i)),
    decreases c.len(),
{
    lemma_f1_len(c);
    let d = c.drop_last();
    assert(c =~= d.push(c.last()));
    crate::ast1_spec::lemma_nd_list_push(d, c.last());
    lemma_f1_len(d);
    if i < d.len() {
        lemma_nd_at(d, i);
        assert(c.take(i) =~= d.take(i));
        assert(nd_list(c).take(i) =~= nd_list(d).take(i));
    } else {
        assert(c.take(i) =~= d);
        assert(nd_list(c).take(i) =~= nd_list(d));
    }
}

pub proof fn lemma_e2_args_push(a: Seq<NdArg>, x: NdArg, n: nat)
    ensures
        rn_list(x.body).len() < n ==> e2_args(a.push(x), n) == orelse(e2_args(a, n), off(e2_list(x.body), (nl(rn_args(a)) + nl(x.pre)) as int)),
        nl(rn_args(a.push(x))) == nl(rn_args(a)) + nl(x.pre) + nl(rn_list(x.body)),
{
    let b = a.push(x);
    assert(b.drop_last() =~= a);
    assert(b.last() == x);
    assert(e2_args(b, n) == orelse(e2_args(b.drop_last(), n), off(e2_at(b.last().body, n), (nl(rn_args(b.drop_last())) + nl(b.last().pre)) as int)));
    if rn_list(x.body).len() < n {
        assert(e2_at(x.body, n) == e2_list(x.body));
    }
    lemma_rn_args_push(a, x);
    broadcast use super::lemma_nl_add;
    lemma_nl_one(crate::ast1_spec::sv_open(x.var));
    lemma_nl_one(crate::ast1_spec::sv_close(x.var));
}

/// the first fault stays the first
pub proof fn lemma_e2_args_stop(a: Seq<NdArg>, k: int, n: nat)
    requires 0 <= k <= a.len(),
    ensures e2_args(a.take(k), n) is Some ==> e2_args(a, n) == e2_args(a.take(k), n),
    decreases a.len(),
{
    if k < a.len() {
        let d = a.drop_last();
        lemma_e2_args_stop(d, k, n);
        assert(d.take(k) =~= a.take(k));
    } else {
        assert(a.take(k) =~= a);
    }
}

/// how large the surroundings are does not matter
pub proof fn lemma_e2_args_n(a: Seq<NdArg>, n: nat, m: nat)
    requires rn_args(a).len() <= n, rn_args(a).len() <= m,
    ensures e2_args(a, n) == e2_args(a, m),
    decreases a.len(),
{
    if a.len() > 0 {
        let d = a.drop_last();
        assert(a =~= d.push(a.last()));
        lemma_rn_args_push(d, a.last());
        lemma_e2_args_n(d, n, m);
        lemma_e2_args_push(d, a.last(), n);
        lemma_e2_args_push(d, a.last(), m);
    }
}

pub broadcast proof fn lemma_e2_args_empty(c: Seq<(String, ast1::Scope)>, n: nat)
    requires c.len() == 0,
    ensures #[trigger] e2_args(nd_args(c), n) is None,
{
    crate::ast1_spec::lemma_nd_args_empty(c);
}

/// the next argument of a command
pub proof fn lemma_e2_arg(all: Seq<(String, ast1::Scope)>, done: Seq<(String, ast1::Scope)>, rest: Seq<(String, ast1::Scope)>, n: nat)
    requires
        all == done + rest,
        done.len() > 0,
        r1_args(all).len() <= n,
    ensures
        e2_args(nd_args(done), n) == orelse(
            e2_args(nd_args(done.drop_last()), n),
            off(e2_list(nd_list(done.last().1.chunks@)), (nl(r1_args(done.drop_last())) + nl(done.last().0@)) as int),
        ),
        e2_args(nd_args(done), n) is Some ==> e2_args(nd_args(all), n) == e2_args(nd_args(done), n),
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    let d = done.drop_last();
    let x = done.last();
    assert(done =~= d.push(x));
    assert(r1_args(all) == r1_args(done) + r1_args(rest));
    crate::ast1_spec::lemma_nd_args_push(d, x);
    lemma_rn_nd_args(d);
    lemma_rn_nd(x.1.chunks@);
    lemma_e2_args_push(nd_args(d), NdArg { pre: x.0@, var: x.1.variant, body: nd_list(x.1.chunks@) }, n);
    lemma_nd_args_take(all, done.len() as int);
    assert(all.take(done.len() as int) =~= done);
    lemma_nd_args_len(all);
    lemma_e2_args_stop(nd_args(all), done.len() as int, n);
}

proof fn lemma_nd_args_take(a: Seq<(String, ast1::Scope)>, k: int)
    requires 0 <= k <= a.len(),
    ensures nd_args(a).take(k) == nd_args(a.take(k)),
    decreases a.len(),
{
    lemma_nd_args_len(a);
    if k < a.len() {
        let d = a.drop_last();
        assert(a =~= d.push(a.last()));
        crate::ast1_spec::lemma_nd_args_push(d, a.last());
        lemma_nd_args_len(d);
        lemma_nd_args_take(d, k);
        assert(d.take(k) =~= a.take(k));
        assert(nd_args(a).take(k) =~= nd_args(d).take(k));
    } else {
        assert(a.take(k) =~= a);
        assert(nd_args(a).take(k) =~= nd_args(a));
    }
}

pub proof fn lemma_e2_run(l: Seq<Nd>, i: int)
    requires 0 <= i < l.len(),
    ensures
        e2_run(l, (i + 1) as nat) == (match e2_run(l, i as nat) {
            Err(e) => Err(e),
            Ok(st) => e2_step(st, l[i], i, (1 + nl(rn_list(l.take(i)))) as int, e2_inner(l[i], rn_list(l).len()), e2_env(l, st.open, i, rn_list(l).len())),
        }),
{
}

pub proof fn lemma_e2_stop(l: Seq<Nd>, k: int)
    requires 0 <= k <= l.len(),
    ensures e2_run(l, k as nat) is Err ==> e2_list(l) == Some(e2_run(l, k as nat)->Err_0),
    decreases l.len() - k,
{
    if k < l.len() {
        lemma_e2_run(l, k);
        lemma_e2_stop(l, k + 1);
    }
}

pub broadcast proof fn lemma_same_text(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>)
    requires #[trigger] same_list(a, b),
    ensures nd_list(a) == nd_list(b), r1_list(a) == r1_list(b),
{
    lemma_same_nd(a, b);
    lemma_rn_nd(a);
    lemma_rn_nd(b);
}

pub proof fn lemma_same_nd(a: Seq<ast1::Chunk>, b: Seq<ast1::Chunk>)
    requires same_list(a, b),
    ensures nd_list(a) == nd_list(b),
    decreases a, 0int,
{
    if a.len() > 0 {
        let x = a.last();
        let y = b.last();
        assert(a =~= a.drop_last().push(x) && b =~= b.drop_last().push(y));
        crate::ast1_spec::lemma_nd_list_push(a.drop_last(), x);
        crate::ast1_spec::lemma_nd_list_push(b.drop_last(), y);
        crate::ast1_spec::def_nd_variant(x.variant);
        crate::ast1_spec::def_nd_variant(y.variant);
        lemma_same_nd(a.drop_last(), b.drop_last());
        lemma_same_variant(x.variant, y.variant);
        match (x.variant, y.variant) {
            (ast1::ChunkVariant::Command(s), ast1::ChunkVariant::Command(t)) => lemma_same_nd_args(s.arguments@, t.arguments@),
            (ast1::ChunkVariant::Scope(s), ast1::ChunkVariant::Scope(t)) => lemma_same_nd(s.chunks@, t.chunks@),
            _ => {},
        }
    } else {
        assert(a =~= b);
    }
}

proof fn lemma_same_nd_args(a: Seq<(String, ast1::Scope)>, b: Seq<(String, ast1::Scope)>)
    requires same_args(a, b),
    ensures nd_args(a) == nd_args(b),
    decreases a, 0int,
{
    if a.len() > 0 {
        let x = a.last();
        let y = b.last();
        assert(a =~= a.drop_last().push(x) && b =~= b.drop_last().push(y));
        crate::ast1_spec::lemma_nd_args_push(a.drop_last(), x);
        crate::ast1_spec::lemma_nd_args_push(b.drop_last(), y);
        lemma_same_nd_args(a.drop_last(), b.drop_last());
        lemma_same_nd(x.1.chunks@, y.1.chunks@);
    } else {
        assert(a =~= b);
    }
}

/// the names that are open
pub closed spec fn names(s: Seq<Vec<ast1::Chunk>>) -> Seq<Seq<Nd>> {
    Seq::new(s.len(), |i: int| nd_list(s[i]@))
}

/// the conversion has done `i` chunks of `all` and found no fault
pub closed spec fn e2_inv(all: Seq<ast1::Chunk>, i: int, stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int) -> bool {
    let l = nd_list(all);
    let r = e2_run(l, i as nat);
    let st = r->Ok_0;
    &&& 0 <= i <= all.len()
    &&& r is Ok
    &&& st.names == names(stack)
    &&& forall|k: int| 0 <= k < stack.len() ==> dn1_list(#[trigger] stack[k]@)
    &&& stack.len() > 0 ==> {
        &&& 0 <= st.open < i
        &&& curly(l[st.open])
        &&& l[st.open]->Cmd_1[0].pre == prec
        &&& l[st.open]->Cmd_1[0].body == st.names[0]
        &&& l[st.open]->Cmd_1.skip(1) == nd_args(args)
        &&& nd_list(buf) == l.subrange(st.open + 1, i)
        &&& at == 1 + nl(rn_list(l.take(st.open)))
        &&& start == 1 + nl(rn_list(l.take(st.open + 1)))
    }
}

pub proof fn lemma_e2_begin(all: Seq<ast1::Chunk>, stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int)
    requires stack.len() == 0,
    ensures e2_inv(all, 0, stack, prec, args, buf, at, start),
{
    assert(names(stack) =~= Seq::empty());
}

pub proof fn lemma_e2_done(all: Seq<ast1::Chunk>, stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int)
    requires e2_inv(all, all.len() as int, stack, prec, args, buf, at, start),
    ensures
        e2_list(nd_list(all)) == (if stack.len() == 0 { None } else { Some(PErr { line: at, kind: EKind::UnclosedEnvironment(r1_list(stack[0]@)) }) }),
{
    lemma_f1_len(all);
    if stack.len() > 0 {
        lemma_rn_nd(stack[0]@);
    }
}

/// the next chunk: each way to go on, and each fault
pub open spec fn e2_next(all: Seq<ast1::Chunk>, i: int, stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int) -> bool {
    let n = r1_list(all).len();
    let x = all[i];
    let f = e2_list(nd_list(all));
    match x.variant {
        ast1::ChunkVariant::Text(s) => true,
        ast1::ChunkVariant::Scope(s) => stack.len() == 0 && e2_list(nd_list(s.chunks@)) is Some ==> f == off(e2_list(nd_list(s.chunks@)), x.line_no - 1),
        ast1::ChunkVariant::Command(c) => {
            if c.label@ != "begin"@ && c.label@ != "end"@ {
                stack.len() == 0 && e2_cmd(c.label@, nd_args(c.arguments@)) is Some ==> f == off(e2_cmd(c.label@, nd_args(c.arguments@)), x.line_no - 1)
            } else if !(c.arguments@.len() > 0 && c.arguments@[0].1.variant is Curly) {
                f == Some(PErr { line: x.line_no as int, kind: EKind::NoEnvironmentLabel })
            } else if c.label@ == "begin"@ {
                true
            } else if stack.len() == 0 || !same_list(stack.last()@, c.arguments@[0].1.chunks@) {
                f == Some(PErr { line: x.line_no as int, kind: EKind::UnexpectedEnd(r1_list(c.arguments@[0].1.chunks@)) })
            } else if c.arguments@.len() > 1 {
                f == Some(PErr { line: x.line_no as int, kind: EKind::TooManyArgsEnd })
            } else if stack.len() == 1 {
                &&& e2_args(nd_args(args), n) is Some ==> f == off(e2_args(nd_args(args), n), at - 1 + nl(prec) + nl(r1_list(c.arguments@[0].1.chunks@)))
                &&& e2_args(nd_args(args), n) is None && e2_list(nd_list(buf)) is Some ==> f == off(e2_list(nd_list(buf)), start - 1)
            } else {
                true
            }
        },
    }
}

pub open spec fn e2_stay(stack: Seq<Vec<ast1::Chunk>>, x: ast1::Chunk, stack2: Seq<Vec<ast1::Chunk>>) -> bool {
    match x.variant {
        ast1::ChunkVariant::Command(c) => {
            if c.label@ == "begin"@ {
                stack2.len() == stack.len() + 1 && stack2.drop_last() =~= stack && stack2.last()@ == c.arguments@[0].1.chunks@
            } else if c.label@ == "end"@ {
                stack.len() > 0 && stack2 =~= stack.drop_last()
            } else {
                stack2 == stack
            }
        },
        _ => stack2 == stack,
    }
}

/// no fault in the chunk
pub open spec fn e2_fine(all: Seq<ast1::Chunk>, i: int, stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int) -> bool {
    let n = r1_list(all).len();
    match all[i].variant {
        ast1::ChunkVariant::Text(s) => true,
        ast1::ChunkVariant::Scope(s) => stack.len() == 0 ==> e2_list(nd_list(s.chunks@)) is None,
        ast1::ChunkVariant::Command(c) => {
            if c.label@ != "begin"@ && c.label@ != "end"@ {
                stack.len() == 0 ==> e2_cmd(c.label@, nd_args(c.arguments@)) is None
            } else {
                &&& c.arguments@.len() > 0 && c.arguments@[0].1.variant is Curly
                &&& c.label@ != "begin"@ ==> stack.len() > 0 && same_list(stack.last()@, c.arguments@[0].1.chunks@) && c.arguments@.len() == 1
                &&& c.label@ != "begin"@ && stack.len() == 1 ==> e2_args(nd_args(args), n) is None && e2_list(nd_list(buf)) is None
            }
        },
    }
}

proof fn lemma_nd_args_at(a: Seq<(String, ast1::Scope)>)
    requires a.len() > 0,
    ensures
        nd_args(a).len() == a.len(),
        nd_args(a)[0] == (NdArg { pre: a[0].0@, var: a[0].1.variant, body: nd_list(a[0].1.chunks@) }),
        nd_args(a).skip(1) == nd_args(a.skip(1)),
{
    lemma_nd_args_first(a);
    lemma_nd_args_len(a);
    assert(nd_args(a).skip(1) =~= nd_args(a.skip(1)));
}

/// sizes within a list
proof fn lemma_e2_sizes(l: Seq<Nd>, i: int)
    requires 0 <= i < l.len(),
    ensures
        rn_list(l.take(i + 1)) == rn_list(l.take(i)) + rn(l[i]),
        rn(l[i]).len() <= rn_list(l).len(),
        rn_list(l.take(i)).len() <= rn_list(l).len(),
    decreases l.len(),
{
    let d = l.drop_last();
    assert(l =~= d.push(l.last()));
    lemma_rn_push(d, l.last());
    if i < d.len() {
        lemma_e2_sizes(d, i);
        assert(d.take(i + 1) =~= l.take(i + 1));
        assert(d.take(i) =~= l.take(i));
    } else {
        assert(l.take(i) =~= d);
        assert(l.take(i + 1) =~= l);
    }
}

proof fn lemma_rn_add(a: Seq<Nd>, b: Seq<Nd>)
    ensures rn_list(a + b) == rn_list(a) + rn_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_rn_add(a, b.drop_last());
        assert(rn_list(a + b) =~= rn_list(a) + rn_list(b));
    }
}

#[verifier::rlimit(60)]
proof fn lemma_e2_here(all: Seq<ast1::Chunk>, i: int, stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int)
    requires
        0 <= i < all.len(),
        e2_inv(all, i, stack, prec, args, buf, at, start),
    ensures ({
        let l = nd_list(all);
        let n = rn_list(l).len();
        let st = e2_run(l, i as nat)->Ok_0;
        &&& l.len() == all.len()
        &&& l[i] == nd_variant(all[i].variant)
        &&& e2_run(l, (i + 1) as nat) == e2_step(st, l[i], i, (1 + nl(rn_list(l.take(i)))) as int, e2_inner(l[i], n), e2_env(l, st.open, i, n))
        &&& e2_run(l, (i + 1) as nat) is Err ==> e2_list(l) == Some(e2_run(l, (i + 1) as nat)->Err_0)
        &&& rn_list(l) == r1_list(all)
        &&& rn_list(l.take(i)) == r1_list(all.take(i))
        &&& st.names.len() == stack.len()
        &&& match all[i].variant {
            ast1::ChunkVariant::Text(s) => e2_inner(l[i], n) is None,
            ast1::ChunkVariant::Scope(s) => e2_inner(l[i], n) == e2_list(nd_list(s.chunks@)),
            ast1::ChunkVariant::Command(c) => e2_inner(l[i], n) == e2_cmd(c.label@, nd_args(c.arguments@)),
        }
        &&& stack.len() > 0 ==> e2_env(l, st.open, i, n) == orelse(
            off(e2_args(nd_args(args), n), at - 1 + nl(prec) + nl(rn_list(st.names[0]))),
            off(e2_list(nd_list(buf)), start - 1),
        )
    }),
{
    let l = nd_list(all);
    let n = rn_list(l).len();
    let st = e2_run(l, i as nat)->Ok_0;
    lemma_nd_at(all, i);
    lemma_e2_run(l, i);
    lemma_e2_stop(l, i + 1);
    lemma_rn_nd(all);
    lemma_rn_nd(all.take(i));
    lemma_e2_sizes(l, i);
    crate::ast1_spec::def_nd_variant(all[i].variant);
    match all[i].variant {
        ast1::ChunkVariant::Text(s) => {},
        ast1::ChunkVariant::Scope(s) => {
            assert(rn(l[i]).len() == rn_list(nd_list(s.chunks@)).len() + 2);
        },
        ast1::ChunkVariant::Command(c) => {
            let a = nd_args(c.arguments@);
            assert(rn(l[i]).len() == 1 + c.label@.len() + rn_args(a).len());
            lemma_e2_args_n(a, n, rn_args(a).len());
        },
    }
    if stack.len() > 0 {
        let o = st.open;
        let m = l.subrange(o + 1, i);
        lemma_e2_sizes(l, o);
        lemma_rn_add(l.take(o + 1), m);
        assert(l.take(o + 1) + m =~= l.take(i));
        assert(rn(l[o]).len() >= 1);
    }
}

/// the faults of the next chunk
pub proof fn lemma_e2_next(all: Seq<ast1::Chunk>, i: int, stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int)
    requires
        0 <= i < all.len(),
        all[i].line_no == 1 + nl(r1_list(all.take(i))),
        dn1_variant(all[i].variant),
        e2_inv(all, i, stack, prec, args, buf, at, start),
    ensures e2_next(all, i, stack, prec, args, buf, at, start),
{
    lemma_e2_here(all, i, stack, prec, args, buf, at, start);
    let l = nd_list(all);
    let st = e2_run(l, i as nat)->Ok_0;
    crate::ast1_spec::def_nd_variant(all[i].variant);
    match all[i].variant {
        ast1::ChunkVariant::Command(c) => {
            if c.arguments@.len() > 0 {
                let x = c.arguments@[0].1.chunks@;
                lemma_nd_args_at(c.arguments@);
                lemma_rn_nd(x);
                if stack.len() > 0 {
                    let y = stack.last()@;
                    assert(st.names.last() == nd_list(y));
                    crate::ast1_spec::def_dn_variant(all[i].variant);
                    crate::ast1_spec::def_dn_command(c);
                    lemma_dn_first(c.arguments@);
                    if same_list(y, x) {
                        lemma_same_text(y, x);
                    } else if nd_list(y) == nd_list(x) {
                        lemma_same(y, x);
                    }
                }
            } else {
                lemma_nd_args_len(c.arguments@);
            }
        },
        _ => {},
    }
}

proof fn lemma_dn_first(a: Seq<(String, ast1::Scope)>)
    requires dn1_args(a), a.len() > 0,
    ensures dn1_list(a[0].1.chunks@),
    decreases a.len(),
{
    broadcast use crate::ast1_spec::group_ast1_lists;
    let d = a.drop_last();
    assert(a =~= d.push(a.last()));
    assert(dn1_scope(a.last().1));
    if d.len() > 0 {
        lemma_dn_first(d);
    }
}

/// it went well
pub proof fn lemma_e2_went(all: Seq<ast1::Chunk>, i: int,
    stack: Seq<Vec<ast1::Chunk>>, prec: Seq<char>, args: Seq<(String, ast1::Scope)>, buf: Seq<ast1::Chunk>, at: int, start: int,
    stack2: Seq<Vec<ast1::Chunk>>, prec2: Seq<char>, args2: Seq<(String, ast1::Scope)>, buf2: Seq<ast1::Chunk>, at2: int, start2: int)
    requires
        0 <= i < all.len(),
        all[i].line_no == 1 + nl(r1_list(all.take(i))),
        dn1_variant(all[i].variant),
        e2_inv(all, i, stack, prec, args, buf, at, start),
        e2_fine(all, i, stack, prec, args, buf, at, start),
        e2_stay(stack, all[i], stack2),
        stack.len() > 0 && stack2.len() > 0 ==> prec2 == prec && args2 == args && at2 == at && start2 == start && buf2.len() == buf.len() + 1
            && buf2.drop_last() =~= buf && buf2.last().variant == all[i].variant,
        stack.len() == 0 && stack2.len() > 0 ==> buf2.len() == 0 && at2 == all[i].line_no && start2 == at2 + nl(r1_variant(all[i].variant))
            && prec2 == all[i].variant->Command_0.arguments@[0].0@ && args2 == all[i].variant->Command_0.arguments@.skip(1),
    ensures e2_inv(all, i + 1, stack2, prec2, args2, buf2, at2, start2),
{
    lemma_e2_here(all, i, stack, prec, args, buf, at, start);
    let l = nd_list(all);
    let st = e2_run(l, i as nat)->Ok_0;
    crate::ast1_spec::def_nd_variant(all[i].variant);
    crate::ast1_spec::def_dn_variant(all[i].variant);
    match all[i].variant {
        ast1::ChunkVariant::Command(c) => {
            if c.arguments@.len() > 0 {
                lemma_nd_args_at(c.arguments@);
                crate::ast1_spec::def_dn_command(c);
                lemma_dn_first(c.arguments@);
                if stack.len() > 0 && same_list(stack.last()@, c.arguments@[0].1.chunks@) {
                    lemma_same_text(stack.last()@, c.arguments@[0].1.chunks@);
                    assert(st.names.last() == nd_list(stack.last()@));
                }
                if c.label@ == "begin"@ {
                    assert(stack2 =~= stack.push(stack2.last()));
                    assert(names(stack2) =~= names(stack).push(nd_list(stack2.last()@)));
                }
            }
            reveal_strlit("begin");
            reveal_strlit("end");
            assert("begin"@.len() == 5 && "end"@.len() == 3);
            if c.label@ == "end"@ {
                assert(names(stack2) =~= names(stack).drop_last());
            }
        },
        _ => {},
    }
    let st2 = e2_run(l, (i + 1) as nat)->Ok_0;
    assert(e2_run(l, (i + 1) as nat) is Ok);
    assert(st2.names =~= names(stack2));
    if stack2.len() > 0 {
        if stack.len() > 0 {
            assert(st2.open == st.open);
            assert(names(stack2)[0] == names(stack)[0]);
            assert(buf2 =~= buf.push(buf2.last()));
            crate::ast1_spec::lemma_nd_list_push(buf, buf2.last());
            assert(l.subrange(st.open + 1, i + 1) =~= l.subrange(st.open + 1, i).push(l[i]));
        } else {
            assert(st2.open == i);
            assert(l.subrange(i + 1, i + 1) =~= Seq::empty());
            crate::ast1_spec::lemma_nd_list_empty(buf2);
            lemma_e2_sizes(l, i);
            assert(rn(l[i]) == r1_variant(all[i].variant)) by {
                let one = Seq::empty().push(all[i]);
                broadcast use crate::ast1_spec::group_ast1_lists;
                crate::ast1_spec::lemma_nd_list_push(Seq::empty(), all[i]);
                crate::ast1_spec::lemma_nd_list_empty(Seq::empty());
                lemma_rn_nd(one);
                lemma_rn_push(Seq::empty(), l[i]);
                assert(rn_list(Seq::empty()) =~= Seq::empty());
                assert(Seq::<char>::empty() + rn(l[i]) =~= rn(l[i]));
                assert(r1_list(one) =~= r1_variant(all[i].variant));
            }
            broadcast use super::lemma_nl_add;
        }
    }
}

// ---- what was parsed is valid, but for closing brackets that close nothing and odd environment names

pub open spec fn nc_text(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !is_close(#[trigger] s[i])
}

proof fn lemma_nc_text(s: Seq<char>)
    requires w_text(s), nc_text(s),
    ensures txt_ok(s),
{
    crate::ast1_spec::lemma_w_text_ok(s);
}

pub open spec fn nc_name(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\\' && !is_open(s[i]) && !is_close(s[i])
}

pub proof fn lemma_nc_name(s: Seq<char>)
    requires name_ok(s), nc_name(s),
    ensures txt_ok(s),
{
    assert(!s.contains('\\')) by {
        if s.contains('\\') {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == '\\';
            assert(s[i] != '\\');
        }
    }
    assert forall|i: int| 0 <= i < s.len() implies !special(#[trigger] s[i]) by {
        if s[i] == '%' {
            assert(s.contains('%'));
        }
    }
    crate::ast1_spec::lemma_txt_ok_def(s);
}

proof fn lemma_label_ok(s: Seq<char>)
    ensures txt_ok(s) || s.len() == 1 ==> label_ok(s),
{
    crate::ast1_spec::lemma_label(s);
}

/// no such bracket, no such name
pub closed spec fn nc_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => nc_text(s@),
        ChunkVariant::Command(c) => nc_args(c.arguments@),
        ChunkVariant::Scope(s) => nc_list(s.chunks@),
        ChunkVariant::Environment(e) => nc_name(e.label@) && nc_args(e.arguments@) && nc_list(e.content@),
    }
}

pub closed spec fn nc_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_list(c.drop_last()) && nc_variant(c.last().variant))
}

pub closed spec fn nc_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_args(c.drop_last()) && nc_list(c.last().1.chunks@))
}

pub proof fn lemma_valid(c: Seq<Chunk>)
    requires w_list(c), nc_list(c),
    ensures ok_list(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_list_push(a, x);
        lemma_ok_list_push(a, x);
        lemma_valid(a);
        lemma_valid_variant(x.variant);
        def_ok_chunk(x);
    } else {
        lemma_ok_list_empty(c);
    }
}

pub proof fn lemma_valid_variant(v: ChunkVariant)
    requires w_variant(v), nc_variant(v),
    ensures ok_variant(v),
    decreases v,
{
    def_w_variant(v);
    def_ok_variant(v);
    match v {
        ChunkVariant::Text(s) => { lemma_nc_text(s@); },
        ChunkVariant::Command(c) => { def_w_command(c); def_ok_command(c); lemma_valid_args(c.arguments@); lemma_label_ok(c.label@); },
        ChunkVariant::Scope(s) => { def_w_scope(s); def_ok_scope(s); lemma_valid(s.chunks@); },
        ChunkVariant::Environment(e) => { def_w_env(e); def_ok_env(e); lemma_nc_name(e.label@); lemma_valid_args(e.arguments@); lemma_valid(e.content@); },
    }
}

pub proof fn lemma_valid_args(c: Seq<(String, Scope)>)
    requires w_args(c), nc_args(c),
    ensures ok_args(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_args_push(a, x);
        lemma_ok_args_push(a, x);
        def_w_scope(x.1);
        def_ok_scope(x.1);
        lemma_valid_args(a);
        lemma_valid(x.1.chunks@);
    } else {
        lemma_ok_args_empty(c);
    }
}

/// the parser's promise (C15): what it returns, `validate` accepts
proof fn lemma_parsed_valid(d: Document)
    requires dn_list(d.0@), w_list(d.0@), nc_list(d.0@),
    ensures num(d.0@) && ok_list(d.0@),
{
    lemma_dn_num(d.0@);
    lemma_valid(d.0@);
}

// ---- what stage 2 consists of, from the stage 1 tree

pub closed spec fn nf(x: Nd) -> It
    decreases x,
{
    match x {
        Nd::Txt(s) => It::Text(s),
        Nd::Grp(v, b) => It::Grp(v, nf_list(b)),
        Nd::Cmd(l, a) => if mark(x) && curly(x) {
            It::Mark(l == "begin"@, a[0].pre, rn_list(a[0].body), nf_args(a).skip(1))
        } else {
            It::Cmd(l, nf_args(a))
        },
    }
}

pub closed spec fn nf_list(l: Seq<Nd>) -> Seq<It>
    decreases l,
{
    if l.len() == 0 {
        Seq::empty()
    } else {
        nf_list(l.drop_last()) + seq![nf(l.last())]
    }
}

pub closed spec fn nf_args(a: Seq<NdArg>) -> Seq<ItArg>
    decreases a,
{
    if a.len() == 0 {
        Seq::empty()
    } else {
        nf_args(a.drop_last()) + seq![ItArg { pre: a.last().pre, var: a.last().var, body: nf_list(a.last().body) }]
    }
}

/// the pieces of stage 1 chunks are those of their tree
pub broadcast proof fn lemma_nf(c: Seq<ast1::Chunk>)
    ensures #[trigger] f1_list(c) == nf_list(nd_list(c)),
    decreases c, 0int,
{
    if c.len() == 0 {
        crate::ast1_spec::lemma_nd_list_empty(c);
        lemma_f1_list_empty(c);
    } else {
        let d = c.drop_last();
        let x = c.last();
        assert(c =~= d.push(x));
        crate::ast1_spec::lemma_nd_list_push(d, x);
        lemma_f1_list_push(d, x);
        lemma_nf(d);
        let k = nd_variant(x.variant);
        crate::ast1_spec::def_nd_variant(x.variant);
        def_f1_variant(x.variant);
        assert(nd_list(c) =~= nd_list(d).push(k));
        assert(nd_list(c).drop_last() =~= nd_list(d));
        match x.variant {
            ast1::ChunkVariant::Text(s) => {},
            ast1::ChunkVariant::Command(m) => {
                let a = m.arguments@;
                lemma_nf_args(a);
                def_f1_command(m);
                if a.len() > 0 {
                    lemma_nd_args_at(a);
                    lemma_rn_nd(a[0].1.chunks@);
                    let h = seq![a[0]];
                    let t = a.skip(1);
                    assert(a =~= h + t);
                    lemma_f1_args_add(h, t);
                    assert(h =~= Seq::empty().push(a[0]));
                    lemma_f1_args_empty(Seq::empty());
                    lemma_f1_args_push(Seq::empty(), a[0]);
                    assert(f1_args(h).len() == 1);
                    assert(f1_args(a).skip(1) =~= f1_args(t));
                } else {
                    crate::ast1_spec::lemma_nd_args_empty(a);
                }
                assert(f1_variant(x.variant) == seq![nf(k)]);
            },
            ast1::ChunkVariant::Scope(s) => {
                lemma_nf(s.chunks@);
            },
        }
    }
}

pub proof fn lemma_nf_args(c: Seq<(String, ast1::Scope)>)
    ensures f1_args(c) == nf_args(nd_args(c)),
    decreases c, 0int,
{
    if c.len() == 0 {
        crate::ast1_spec::lemma_nd_args_empty(c);
        lemma_f1_args_empty(c);
    } else {
        let d = c.drop_last();
        let x = c.last();
        assert(c =~= d.push(x));
        crate::ast1_spec::lemma_nd_args_push(d, x);
        lemma_f1_args_push(d, x);
        lemma_nf_args(d);
        lemma_nf(x.1.chunks@);
        assert(nd_args(c).drop_last() =~= nd_args(d));
    }
}

pub broadcast group group_ast2 {
    def_r_variant,
    def_r_chunk,
    def_r_command,
    def_r_scope,
    def_r_env,
    lemma_r_list_empty,
    lemma_r_list_push,
    lemma_r_list_add,
    lemma_r_args_empty,
    lemma_r_args_push,
    lemma_r_args_add,
    def_ok_variant,
    def_ok_chunk,
    def_ok_command,
    def_ok_scope,
    def_ok_env,
    lemma_ok_list_empty,
    lemma_ok_list_push,
    lemma_ok_list_add,
    lemma_ok_args_empty,
    lemma_ok_args_push,
    lemma_ok_args_add,
    def_bad_variant,
    def_bad_chunk,
    def_bad_command,
    def_bad_scope,
    def_bad_env,
    lemma_bad_list_empty,
    lemma_bad_list_push,
    lemma_bad_list_add,
    lemma_bad_args_empty,
    lemma_bad_args_push,
    lemma_bad_args_add,
    def_dn_variant,
    def_dn_command,
    def_dn_scope,
    def_dn_env,
    lemma_dn_list_empty,
    lemma_dn_list_push,
    lemma_dn_list_add,
    lemma_dn_args_empty,
    lemma_dn_args_push,
    lemma_dn_args_add,
    def_nbe_variant,
    def_nbe_command,
    def_nbe_scope,
    def_nbe_env,
    lemma_nbe_list_empty,
    lemma_nbe_list_push,
    lemma_nbe_list_add,
    lemma_nbe_args_empty,
    lemma_nbe_args_push,
    lemma_nbe_args_add,
    def_w_variant,
    def_w_command,
    def_w_scope,
    def_w_env,
    lemma_w_list_empty,
    lemma_w_list_push,
    lemma_w_list_add,
    lemma_w_args_empty,
    lemma_w_args_push,
    lemma_w_args_add,
    def_lab_variant,
    def_lab_command,
    def_lab_scope,
    def_lab_env,
    lemma_lab_list_empty,
    lemma_lab_list_push,
    lemma_lab_list_add,
    lemma_lab_args_empty,
    lemma_lab_args_push,
    lemma_lab_args_add,
    def_f_variant,
    def_f_env,
    lemma_f_list_empty,
    lemma_f_list_push,
    lemma_f_list_add,
    lemma_f_args_empty,
    lemma_f_args_push,
    lemma_f_args_add,
    def_f1_variant,
    def_f1_command,
    lemma_f1_list_empty,
    lemma_f1_list_push,
    lemma_f1_list_add,
    lemma_f1_args_empty,
    lemma_f1_args_push,
    lemma_f1_args_add,
    def_np1_variant,
    def_np1_command,
    def_np1_scope,
    lemma_np1_list_empty,
    lemma_np1_list_push,
    lemma_np1_list_add,
    lemma_np1_args_empty,
    lemma_np1_args_push,
    lemma_np1_args_add,
    lemma_dnf1_empty,
    lemma_dnf1_push,
    lemma_dnf1_add,
    lemma_dnf1_one,
    lemma_e2_args_empty,
    lemma_num_empty,
    lemma_num_push,
    lemma_num_add,
    lemma_ctext_none,
    lemma_cits_none,
    lemma_ctext_push,
    lemma_cits_push,
    lemma_t_begin,
    lemma_t_end,
    crate::ast1_spec::group_ast1_lists,
    crate::ast1_spec::lemma_txt_empty,
    crate::ast1_spec::lemma_txt_push,
    crate::ast1_spec::lemma_txt_add,
    crate::ast1_spec::lemma_label,
}

/// has to fail: otherwise the lemmas in scope contradict each other
#[verifier::spinoff_prover]
#[verifier::rlimit(3)]
proof fn v_canary_ast2()
    ensures false,
{
}

// ---- a stage 2 list converted element by element

pub proof fn lemma_conv_entry(s: Scope)
    requires lab_scope(s) && dn_scope(s),
    ensures
        lab_list(s.chunks@) && dn_list(s.chunks@),
        r_list(s.chunks@).len() < r_scope(s).len(),
        r_list(Seq::<Chunk>::empty()) == ast1r_empty(),
        f_list(Seq::<Chunk>::empty()) == Seq::<It>::empty(),
        crate::ast1_spec::r_list(Seq::<ast1::Chunk>::empty()) == ast1r_empty(),
        f1_list(Seq::<ast1::Chunk>::empty()) == Seq::<It>::empty(),
        np1_list(Seq::<ast1::Chunk>::empty()),
        dnf1(Seq::<ast1::Chunk>::empty(), 1),
{
    broadcast use group_ast2, crate::ast1_spec::group_ast1;
}

pub open spec fn ast1r_empty() -> Seq<char> {
    Seq::empty()
}

pub proof fn lemma_conv_exit(s: Scope, t: ast1::Scope)
    requires
        r1_list(t.chunks@) == r_list(s.chunks@),
        t.variant == sv_12(s.variant),
        dnf1(t.chunks@, 1),
        nbe_list(s.chunks@) ==> np1_list(t.chunks@),
    ensures
        r1_scope(t) == r_scope(s),
        dn1_scope(t),
        nbe_scope(s) == nbe_list(s.chunks@),
        nbe_scope(s) ==> np1_scope(t),
{
    broadcast use group_ast2, crate::ast1_spec::group_ast1;
}

pub proof fn lemma_conv_pre(all: Seq<Chunk>, d: Seq<Chunk>, rest: Seq<Chunk>)
    requires
        d.len() > 0,
        all == d + rest,
        lab_list(all),
        dn_list(all),
        r_list(all).len() < u32::MAX,
    ensures
        lab_variant(d.last().variant),
        dn_variant(d.last().variant),
        d.last().line_no >= 1,
        d.last().line_no == 1 + nl(r_list(d.drop_last())),
        d.last().line_no + nl(r_variant(d.last().variant)) <= u32::MAX,
        r_variant(d.last().variant).len() < u32::MAX,
        nbe_list(all) ==> nbe_variant(d.last().variant),
{
    broadcast use group_ast2;
    let e = d.drop_last();
    assert(d =~= e.push(d.last()));
    assert(r_list(all) == r_list(d) + r_list(rest));
    assert(nl(r_list(d)) == nl(r_list(e)) + nl(r_variant(d.last().variant)));
    lemma_nl_len(r_list(d));
}

pub proof fn lemma_conv_add(all: Seq<Chunk>, d: Seq<Chunk>, a: Seq<ast1::Chunk>, g: Seq<ast1::Chunk>)
    requires
        d.len() > 0,
        d.last().line_no == 1 + nl(r_list(d.drop_last())),
        nbe_list(all) ==> nbe_variant(d.last().variant),
        r1_list(a) == r_list(d.drop_last()),
        dnf1(a, 1),
        nbe_list(all) ==> f1_list(a) == f_list(d.drop_last()),
        nbe_list(all) ==> np1_list(a),
        r1_list(g) == r_variant(d.last().variant),
        dnf1(g, d.last().line_no as int),
        nbe_variant(d.last().variant) ==> f1_list(g) == f_variant(d.last().variant),
        nbe_variant(d.last().variant) ==> np1_list(g),
    ensures
        r1_list(a + g) == r_list(d),
        dnf1(a + g, 1),
        nbe_list(all) ==> f1_list(a + g) == f_list(d),
        nbe_list(all) ==> np1_list(a + g),
{
    let e = d.drop_last();
    assert(d =~= e.push(d.last()));
    lemma_r_list_push(e, d.last());
    def_r_chunk(d.last());
    lemma_f_list_push(e, d.last());
    crate::ast1_spec::lemma_r_list_add(a, g);
    lemma_dnf1_add(a, g, 1);
    lemma_f1_list_add(a, g);
    lemma_np1_list_add(a, g);
}
