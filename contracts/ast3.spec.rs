use crate::ast2;
pub use crate::ast1_spec::{
    is_open, is_close, special, txt_ok, label_ok, bad_text, w_text, strip, clean, lemma_nl_one, PErr, says, p_doc,
};
pub use crate::ast2_spec::{
    t_begin, t_end, lemma_t_marks, name_ok, sv_32,
    r_list as r2_list, r_args as r2_args, r_chunk as r2_chunk, r_variant as r2_variant, r_scope as r2_scope,
    r_command as r2_command, r_env as r2_env,
    dn_list as dn2_list, dn_args as dn2_args, dn_variant as dn2_variant, dn_scope as dn2_scope,
    dn_command as dn2_command, dn_env as dn2_env,
    w_list as w2_list, w_args as w2_args, w_variant as w2_variant, w_scope as w2_scope, w_command as w2_command,
    w_env as w2_env,
    off, orelse, told, e2_src,
};

// ---- brackets

/// the same bracket at stage 2
pub open spec fn sv_2(v: ScopeVariant) -> ast2::ScopeVariant {
    match v {
        ScopeVariant::Curly => ast2::ScopeVariant::Curly,
        ScopeVariant::Round => ast2::ScopeVariant::Round,
        ScopeVariant::Square => ast2::ScopeVariant::Square,
    }
}

pub open spec fn sv_open(v: ScopeVariant) -> char {
    crate::ast2_spec::sv_open(sv_2(v))
}

pub open spec fn sv_close(v: ScopeVariant) -> char {
    crate::ast2_spec::sv_close(sv_2(v))
}

// ---- maths delimiters

pub open spec fn m_open(v: MathsVariant, t: MathsType) -> Seq<char> {
    match (v, t) {
        (MathsVariant::Brackets, MathsType::Outline) => seq!['\\', '['],
        (MathsVariant::Brackets, MathsType::Inline) => seq!['\\', '('],
        (MathsVariant::Dollars, MathsType::Outline) => seq!['$', '$'],
        (MathsVariant::Dollars, MathsType::Inline) => seq!['$'],
    }
}

pub open spec fn m_close(v: MathsVariant, t: MathsType) -> Seq<char> {
    match (v, t) {
        (MathsVariant::Brackets, MathsType::Outline) => seq!['\\', ']'],
        (MathsVariant::Brackets, MathsType::Inline) => seq!['\\', ')'],
        (MathsVariant::Dollars, MathsType::Outline) => seq!['$', '$'],
        (MathsVariant::Dollars, MathsType::Inline) => seq!['$'],
    }
}

/// a command that begins or ends maths
pub open spec fn delim(l: Seq<char>) -> bool {
    l.len() == 1 && (l[0] == '(' || l[0] == ')' || l[0] == '[' || l[0] == ']')
}

// ---- paragraphs

/// a line break with nothing but whitespace after it
pub closed spec fn tail_nl(s: Seq<char>) -> bool
    decreases s.len(),
{
    s.len() > 0 && (s.last() == '\n' || (ws(s.last()) && tail_nl(s.drop_last())))
}

/// two line breaks with nothing but whitespace in between
pub closed spec fn brk(s: Seq<char>) -> bool
    decreases s.len(),
{
    s.len() > 0 && (brk(s.drop_last()) || (s.last() == '\n' && tail_nl(s.drop_last())))
}

pub closed spec fn all_ws(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i])
}

pub open spec fn pb_ok(s: Seq<char>) -> bool {
    all_ws(s) && nl(s) >= 2
}

pub broadcast proof fn lemma_tail_nl_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] tail_nl(s) == false,
{
}

pub broadcast proof fn lemma_tail_nl_push(s: Seq<char>, c: char)
    ensures #[trigger] tail_nl(s.push(c)) == (c == '\n' || (ws(c) && tail_nl(s))),
{
    assert(s.push(c).drop_last() =~= s);
}

pub broadcast proof fn lemma_brk_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] brk(s) == false,
{
}

pub broadcast proof fn lemma_brk_push(s: Seq<char>, c: char)
    ensures #[trigger] brk(s.push(c)) == (brk(s) || (c == '\n' && tail_nl(s))),
{
    assert(s.push(c).drop_last() =~= s);
}

pub broadcast proof fn lemma_all_ws_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] all_ws(s),
{
}

pub broadcast proof fn lemma_all_ws_push(s: Seq<char>, c: char)
    ensures #[trigger] all_ws(s.push(c)) == (all_ws(s) && ws(c)),
{
    if all_ws(s.push(c)) {
        assert forall|i: int| 0 <= i < s.len() implies ws(#[trigger] s[i]) by {
            assert(s.push(c)[i] == s[i]);
        }
        assert(s.push(c)[s.len() as int] == c);
    }
}

pub broadcast proof fn lemma_brk_add(a: Seq<char>, b: Seq<char>)
    ensures brk(a) ==> #[trigger] brk(a + b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_brk_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_all_ws_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] all_ws(a + b) == (all_ws(a) && all_ws(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        assert(b =~= b.drop_last().push(b.last()));
        lemma_all_ws_add(a, b.drop_last());
        lemma_all_ws_push(a + b.drop_last(), b.last());
        lemma_all_ws_push(b.drop_last(), b.last());
    }
}

// ---- pieces

/// a piece of a list
pub ghost enum Tk {
    Ch(char),
    Cmd(Seq<char>, Seq<TkArg>),
    Grp(ast2::ScopeVariant, Seq<Tk>),
    Env(Seq<char>, Seq<char>, Seq<TkArg>, Seq<Tk>, Seq<char>),
}

pub ghost struct TkArg {
    pub pre: Seq<char>,
    pub var: ast2::ScopeVariant,
    pub body: Seq<Tk>,
}

pub closed spec fn chs(s: Seq<char>) -> Seq<Tk> {
    s.map_values(|c: char| Tk::Ch(c))
}

pub broadcast proof fn lemma_chs_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] chs(s) == Seq::<Tk>::empty(),
{
    assert(chs(s) =~= Seq::<Tk>::empty());
}

pub broadcast proof fn lemma_chs_push(s: Seq<char>, c: char)
    ensures #[trigger] chs(s.push(c)) == chs(s).push(Tk::Ch(c)),
{
    assert(chs(s.push(c)) =~= chs(s).push(Tk::Ch(c)));
}

pub broadcast proof fn lemma_chs_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] chs(a + b) == chs(a) + chs(b),
{
    assert(chs(a + b) =~= chs(a) + chs(b));
}

pub open spec fn tm_open(v: MathsVariant, t: MathsType) -> Seq<Tk> {
    match (v, t) {
        (MathsVariant::Brackets, MathsType::Outline) => seq![Tk::Cmd(seq!['['], Seq::empty())],
        (MathsVariant::Brackets, MathsType::Inline) => seq![Tk::Cmd(seq!['('], Seq::empty())],
        (MathsVariant::Dollars, MathsType::Outline) => seq![Tk::Ch('$'), Tk::Ch('$')],
        (MathsVariant::Dollars, MathsType::Inline) => seq![Tk::Ch('$')],
    }
}

pub open spec fn tm_close(v: MathsVariant, t: MathsType) -> Seq<Tk> {
    match (v, t) {
        (MathsVariant::Brackets, MathsType::Outline) => seq![Tk::Cmd(seq![']'], Seq::empty())],
        (MathsVariant::Brackets, MathsType::Inline) => seq![Tk::Cmd(seq![')'], Seq::empty())],
        (MathsVariant::Dollars, MathsType::Outline) => seq![Tk::Ch('$'), Tk::Ch('$')],
        (MathsVariant::Dollars, MathsType::Inline) => seq![Tk::Ch('$')],
    }
}

// ---- the printed form

pub closed spec fn r_variant(v: ChunkVariant) -> Seq<char>
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => s@,
        ChunkVariant::ParagraphBreak(s) => s@,
        ChunkVariant::MathsBlock(m) => r_maths(m),
        ChunkVariant::Command(c) => r_command(c),
        ChunkVariant::Scope(s) => r_scope(s),
        ChunkVariant::Environment(e) => r_env(e),
    }
}

pub broadcast proof fn def_r_variant(v: ChunkVariant)
    ensures #[trigger] r_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => s@,
        ChunkVariant::ParagraphBreak(s) => s@,
        ChunkVariant::MathsBlock(m) => r_maths(m),
        ChunkVariant::Command(c) => r_command(c),
        ChunkVariant::Scope(s) => r_scope(s),
        ChunkVariant::Environment(e) => r_env(e),
    }
    }),
{
}

pub closed spec fn r_chunk(c: Chunk) -> Seq<char>
    decreases c,
{
    r_variant(c.variant)
}

pub broadcast proof fn def_r_chunk(c: Chunk)
    ensures #[trigger] r_chunk(c) == ({
    r_variant(c.variant)
    }),
{
}

pub closed spec fn r_command(c: Command) -> Seq<char>
    decreases c,
{
    seq!['\\'] + c.label@ + r_args(c.arguments@)
}

pub broadcast proof fn def_r_command(c: Command)
    ensures #[trigger] r_command(c) == ({
    seq!['\\'] + c.label@ + r_args(c.arguments@)
    }),
{
}

pub closed spec fn r_scope(s: Scope) -> Seq<char>
    decreases s,
{
    seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]
}

pub broadcast proof fn def_r_scope(s: Scope)
    ensures #[trigger] r_scope(s) == ({
    seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]
    }),
{
}

pub closed spec fn r_env(e: Environment) -> Seq<char>
    decreases e,
{
    t_begin(e.prec_begin@, e.label@) + r_args(e.arguments@) + r_list(e.content@) + t_end(e.prec_end@, e.label@)
}

pub broadcast proof fn def_r_env(e: Environment)
    ensures #[trigger] r_env(e) == ({
    t_begin(e.prec_begin@, e.label@) + r_args(e.arguments@) + r_list(e.content@) + t_end(e.prec_end@, e.label@)
    }),
{
}

pub closed spec fn r_maths(m: MathsBlock) -> Seq<char>
    decreases m,
{
    m_open(m.variant, m.raw_type) + r_list(m.content@) + m_close(m.variant, m.raw_type)
}

pub broadcast proof fn def_r_maths(m: MathsBlock)
    ensures #[trigger] r_maths(m) == ({
    m_open(m.variant, m.raw_type) + r_list(m.content@) + m_close(m.variant, m.raw_type)
    }),
{
}

pub closed spec fn r_list(c: Seq<Chunk>) -> Seq<char>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        r_list(c.drop_last()) + r_chunk(c.last())
    }
}

pub broadcast proof fn lemma_r_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] r_list(c) == Seq::<char>::empty(),
{
}

pub broadcast proof fn lemma_r_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] r_list(a.push(c)) == r_list(a) + r_chunk(c),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_r_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] r_list(a + b) == r_list(a) + r_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(r_list(a) + r_list(b) =~= r_list(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_r_list_add(a, b.drop_last());
        assert(r_list(a + b) =~= r_list(a) + r_list(b));
    }
}

pub closed spec fn r_args(c: Seq<(String, Scope)>) -> Seq<char>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        r_args(c.drop_last()) + (c.last().0@ + r_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_r_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] r_args(c) == Seq::<char>::empty(),
{
}

pub broadcast proof fn lemma_r_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] r_args(a.push(c)) == r_args(a) + (c.0@ + r_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_r_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] r_args(a + b) == r_args(a) + r_args(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(r_args(a) + r_args(b) =~= r_args(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_r_args_add(a, b.drop_last());
        assert(r_args(a + b) =~= r_args(a) + r_args(b));
    }
}

// ---- validity

pub closed spec fn ok_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => txt_ok(s@) && !brk(s@),
        ChunkVariant::ParagraphBreak(s) => pb_ok(s@),
        ChunkVariant::MathsBlock(m) => ok_maths(m),
        ChunkVariant::Command(c) => ok_command(c),
        ChunkVariant::Scope(s) => ok_scope(s),
        ChunkVariant::Environment(e) => ok_env(e),
    }
}

pub broadcast proof fn def_ok_variant(v: ChunkVariant)
    ensures #[trigger] ok_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => txt_ok(s@) && !brk(s@),
        ChunkVariant::ParagraphBreak(s) => pb_ok(s@),
        ChunkVariant::MathsBlock(m) => ok_maths(m),
        ChunkVariant::Command(c) => ok_command(c),
        ChunkVariant::Scope(s) => ok_scope(s),
        ChunkVariant::Environment(e) => ok_env(e),
    }
    }),
{
}

pub closed spec fn ok_chunk(c: Chunk) -> bool
    decreases c,
{
    ok_variant(c.variant)
}

pub broadcast proof fn def_ok_chunk(c: Chunk)
    ensures #[trigger] ok_chunk(c) == ({
    ok_variant(c.variant)
    }),
{
}

pub closed spec fn ok_command(c: Command) -> bool
    decreases c,
{
    c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && ok_args(c.arguments@)
}

pub broadcast proof fn def_ok_command(c: Command)
    ensures #[trigger] ok_command(c) == ({
    c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && ok_args(c.arguments@)
    }),
{
}

pub closed spec fn ok_scope(s: Scope) -> bool
    decreases s,
{
    ok_list(s.chunks@)
}

pub broadcast proof fn def_ok_scope(s: Scope)
    ensures #[trigger] ok_scope(s) == ({
    ok_list(s.chunks@)
    }),
{
}

pub closed spec fn ok_env(e: Environment) -> bool
    decreases e,
{
    txt_ok(e.label@) && ok_args(e.arguments@) && ok_list(e.content@)
}

pub broadcast proof fn def_ok_env(e: Environment)
    ensures #[trigger] ok_env(e) == ({
    txt_ok(e.label@) && ok_args(e.arguments@) && ok_list(e.content@)
    }),
{
}

pub closed spec fn ok_maths(m: MathsBlock) -> bool
    decreases m,
{
    ok_list(m.content@)
}

pub broadcast proof fn def_ok_maths(m: MathsBlock)
    ensures #[trigger] ok_maths(m) == ({
    ok_list(m.content@)
    }),
{
}

pub closed spec fn ok_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (ok_list(c.drop_last()) && ok_chunk(c.last()))
    }
}

pub broadcast proof fn lemma_ok_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] ok_list(c) == true,
{
}

pub broadcast proof fn lemma_ok_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] ok_list(a.push(c)) == (ok_list(a) && ok_chunk(c)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_ok_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] ok_list(a + b) == (ok_list(a) && ok_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ok_list_add(a, b.drop_last());
    }
}

pub closed spec fn ok_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (ok_args(c.drop_last()) && ok_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_ok_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] ok_args(c) == true,
{
}

pub broadcast proof fn lemma_ok_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] ok_args(a.push(c)) == (ok_args(a) && ok_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_ok_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] ok_args(a + b) == (ok_args(a) && ok_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ok_args_add(a, b.drop_last());
    }
}

// ---- what a rejection may say: a violation that is there

pub closed spec fn bad_variant(v: ChunkVariant, x: InternalError) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => bad_text(s@, x) || (x is UnbrokenParagraph && brk(s@)),
        ChunkVariant::ParagraphBreak(s) => (x is ParagraghBreakNonwhitespace && !all_ws(s@)) || (x is ParagraphBreakTooShort && nl(s@) < 2),
        ChunkVariant::MathsBlock(m) => bad_maths(m, x),
        ChunkVariant::Command(c) => bad_command(c, x),
        ChunkVariant::Scope(s) => bad_scope(s, x),
        ChunkVariant::Environment(e) => bad_env(e, x),
    }
}

pub broadcast proof fn def_bad_variant(v: ChunkVariant, x: InternalError)
    ensures #[trigger] bad_variant(v, x) == ({
    match v {
        ChunkVariant::Text(s) => bad_text(s@, x) || (x is UnbrokenParagraph && brk(s@)),
        ChunkVariant::ParagraphBreak(s) => (x is ParagraghBreakNonwhitespace && !all_ws(s@)) || (x is ParagraphBreakTooShort && nl(s@) < 2),
        ChunkVariant::MathsBlock(m) => bad_maths(m, x),
        ChunkVariant::Command(c) => bad_command(c, x),
        ChunkVariant::Scope(s) => bad_scope(s, x),
        ChunkVariant::Environment(e) => bad_env(e, x),
    }
    }),
{
}

pub closed spec fn bad_chunk(c: Chunk, x: InternalError) -> bool
    decreases c,
{
    bad_variant(c.variant, x)
}

pub broadcast proof fn def_bad_chunk(c: Chunk, x: InternalError)
    ensures #[trigger] bad_chunk(c, x) == ({
    bad_variant(c.variant, x)
    }),
{
}

pub closed spec fn bad_command(c: Command, x: InternalError) -> bool
    decreases c,
{
    (c.label@ == "begin"@ && x is BeginCommand) || (c.label@ == "end"@ && x is EndCommand) || (c.label@.len() != 1 && bad_text(c.label@, x)) || bad_args(c.arguments@, x)
}

pub broadcast proof fn def_bad_command(c: Command, x: InternalError)
    ensures #[trigger] bad_command(c, x) == ({
    (c.label@ == "begin"@ && x is BeginCommand) || (c.label@ == "end"@ && x is EndCommand) || (c.label@.len() != 1 && bad_text(c.label@, x)) || bad_args(c.arguments@, x)
    }),
{
}

pub closed spec fn bad_scope(s: Scope, x: InternalError) -> bool
    decreases s,
{
    bad_list(s.chunks@, x)
}

pub broadcast proof fn def_bad_scope(s: Scope, x: InternalError)
    ensures #[trigger] bad_scope(s, x) == ({
    bad_list(s.chunks@, x)
    }),
{
}

pub closed spec fn bad_env(e: Environment, x: InternalError) -> bool
    decreases e,
{
    bad_text(e.label@, x) || bad_args(e.arguments@, x) || bad_list(e.content@, x)
}

pub broadcast proof fn def_bad_env(e: Environment, x: InternalError)
    ensures #[trigger] bad_env(e, x) == ({
    bad_text(e.label@, x) || bad_args(e.arguments@, x) || bad_list(e.content@, x)
    }),
{
}

pub closed spec fn bad_maths(m: MathsBlock, x: InternalError) -> bool
    decreases m,
{
    bad_list(m.content@, x)
}

pub broadcast proof fn def_bad_maths(m: MathsBlock, x: InternalError)
    ensures #[trigger] bad_maths(m, x) == ({
    bad_list(m.content@, x)
    }),
{
}

pub closed spec fn bad_list(c: Seq<Chunk>, x: InternalError) -> bool
    decreases c,
{
    if c.len() == 0 {
        false
    } else {
        (bad_list(c.drop_last(), x) || bad_chunk(c.last(), x))
    }
}

pub broadcast proof fn lemma_bad_list_empty(c: Seq<Chunk>, x: InternalError)
    requires c.len() == 0,
    ensures #[trigger] bad_list(c, x) == false,
{
}

pub broadcast proof fn lemma_bad_list_push(a: Seq<Chunk>, c: Chunk, x: InternalError)
    ensures #[trigger] bad_list(a.push(c), x) == (bad_list(a, x) || bad_chunk(c, x)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_bad_list_add(a: Seq<Chunk>, b: Seq<Chunk>, x: InternalError)
    ensures #[trigger] bad_list(a + b, x) == (bad_list(a, x) || bad_list(b, x)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bad_list_add(a, b.drop_last(), x);
    }
}

pub closed spec fn bad_args(c: Seq<(String, Scope)>, x: InternalError) -> bool
    decreases c,
{
    if c.len() == 0 {
        false
    } else {
        (bad_args(c.drop_last(), x) || bad_scope(c.last().1, x))
    }
}

pub broadcast proof fn lemma_bad_args_empty(c: Seq<(String, Scope)>, x: InternalError)
    requires c.len() == 0,
    ensures #[trigger] bad_args(c, x) == false,
{
}

pub broadcast proof fn lemma_bad_args_push(a: Seq<(String, Scope)>, c: (String, Scope), x: InternalError)
    ensures #[trigger] bad_args(a.push(c), x) == (bad_args(a, x) || bad_scope(c.1, x)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_bad_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>, x: InternalError)
    ensures #[trigger] bad_args(a + b, x) == (bad_args(a, x) || bad_args(b, x)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bad_args_add(a, b.drop_last(), x);
    }
}

// ---- deep numbering: every list, however deeply nested

pub closed spec fn dn_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::ParagraphBreak(s) => true,
        ChunkVariant::MathsBlock(m) => dn_maths(m),
        ChunkVariant::Command(c) => dn_command(c),
        ChunkVariant::Scope(s) => dn_scope(s),
        ChunkVariant::Environment(e) => dn_env(e),
    }
}

pub broadcast proof fn def_dn_variant(v: ChunkVariant)
    ensures #[trigger] dn_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::ParagraphBreak(s) => true,
        ChunkVariant::MathsBlock(m) => dn_maths(m),
        ChunkVariant::Command(c) => dn_command(c),
        ChunkVariant::Scope(s) => dn_scope(s),
        ChunkVariant::Environment(e) => dn_env(e),
    }
    }),
{
}

pub closed spec fn dn_command(c: Command) -> bool
    decreases c,
{
    dn_args(c.arguments@)
}

pub broadcast proof fn def_dn_command(c: Command)
    ensures #[trigger] dn_command(c) == ({
    dn_args(c.arguments@)
    }),
{
}

pub closed spec fn dn_scope(s: Scope) -> bool
    decreases s,
{
    dn_list(s.chunks@)
}

pub broadcast proof fn def_dn_scope(s: Scope)
    ensures #[trigger] dn_scope(s) == ({
    dn_list(s.chunks@)
    }),
{
}

pub closed spec fn dn_env(e: Environment) -> bool
    decreases e,
{
    dn_args(e.arguments@) && dn_list(e.content@)
}

pub broadcast proof fn def_dn_env(e: Environment)
    ensures #[trigger] dn_env(e) == ({
    dn_args(e.arguments@) && dn_list(e.content@)
    }),
{
}

pub closed spec fn dn_maths(m: MathsBlock) -> bool
    decreases m,
{
    dn_list(m.content@)
}

pub broadcast proof fn def_dn_maths(m: MathsBlock)
    ensures #[trigger] dn_maths(m) == ({
    dn_list(m.content@)
    }),
{
}

pub closed spec fn dn_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (dn_list(c.drop_last()) && (c.last().line_no == 1 + nl(r_list(c.drop_last())) && dn_variant(c.last().variant)))
    }
}

pub broadcast proof fn lemma_dn_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] dn_list(c) == true,
{
}

pub broadcast proof fn lemma_dn_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] dn_list(a.push(c)) == (dn_list(a) && (c.line_no == 1 + nl(r_list(a)) && dn_variant(c.variant))),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dn_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] dn_list(a + b) ==> dn_list(a),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dn_list_add(a, b.drop_last());
    }
}

pub closed spec fn dn_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (dn_args(c.drop_last()) && dn_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_dn_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] dn_args(c) == true,
{
}

pub broadcast proof fn lemma_dn_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] dn_args(a.push(c)) == (dn_args(a) && dn_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dn_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] dn_args(a + b) == (dn_args(a) && dn_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dn_args_add(a, b.drop_last());
    }
}

// ---- what the conversion makes: valid but for closing brackets in texts and environment names

pub closed spec fn w_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => w_text(s@) && !brk(s@),
        ChunkVariant::ParagraphBreak(s) => pb_ok(s@),
        ChunkVariant::MathsBlock(m) => w_maths(m),
        ChunkVariant::Command(c) => w_command(c),
        ChunkVariant::Scope(s) => w_scope(s),
        ChunkVariant::Environment(e) => w_env(e),
    }
}

pub broadcast proof fn def_w_variant(v: ChunkVariant)
    ensures #[trigger] w_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => w_text(s@) && !brk(s@),
        ChunkVariant::ParagraphBreak(s) => pb_ok(s@),
        ChunkVariant::MathsBlock(m) => w_maths(m),
        ChunkVariant::Command(c) => w_command(c),
        ChunkVariant::Scope(s) => w_scope(s),
        ChunkVariant::Environment(e) => w_env(e),
    }
    }),
{
}

pub closed spec fn w_command(c: Command) -> bool
    decreases c,
{
    c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && w_args(c.arguments@)
}

pub broadcast proof fn def_w_command(c: Command)
    ensures #[trigger] w_command(c) == ({
    c.label@ != "begin"@ && c.label@ != "end"@ && label_ok(c.label@) && w_args(c.arguments@)
    }),
{
}

pub closed spec fn w_scope(s: Scope) -> bool
    decreases s,
{
    w_list(s.chunks@)
}

pub broadcast proof fn def_w_scope(s: Scope)
    ensures #[trigger] w_scope(s) == ({
    w_list(s.chunks@)
    }),
{
}

pub closed spec fn w_env(e: Environment) -> bool
    decreases e,
{
    name_ok(e.label@) && w_args(e.arguments@) && w_list(e.content@)
}

pub broadcast proof fn def_w_env(e: Environment)
    ensures #[trigger] w_env(e) == ({
    name_ok(e.label@) && w_args(e.arguments@) && w_list(e.content@)
    }),
{
}

pub closed spec fn w_maths(m: MathsBlock) -> bool
    decreases m,
{
    w_list(m.content@)
}

pub broadcast proof fn def_w_maths(m: MathsBlock)
    ensures #[trigger] w_maths(m) == ({
    w_list(m.content@)
    }),
{
}

pub closed spec fn w_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (w_list(c.drop_last()) && w_variant(c.last().variant))
    }
}

pub broadcast proof fn lemma_w_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] w_list(c) == true,
{
}

pub broadcast proof fn lemma_w_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] w_list(a.push(c)) == (w_list(a) && w_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_w_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] w_list(a + b) == (w_list(a) && w_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_w_list_add(a, b.drop_last());
    }
}

pub closed spec fn w_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (w_args(c.drop_last()) && w_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_w_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] w_args(c) == true,
{
}

pub broadcast proof fn lemma_w_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] w_args(a.push(c)) == (w_args(a) && w_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_w_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] w_args(a + b) == (w_args(a) && w_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_w_args_add(a, b.drop_last());
    }
}

// ---- maths taken out: no dollar in a text, no delimiter among the commands, blocks as they read

pub closed spec fn mn_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => no_d(s@),
        ChunkVariant::ParagraphBreak(s) => true,
        ChunkVariant::MathsBlock(m) => mn_maths(m),
        ChunkVariant::Command(c) => mn_command(c),
        ChunkVariant::Scope(s) => mn_scope(s),
        ChunkVariant::Environment(e) => mn_env(e),
    }
}

pub broadcast proof fn def_mn_variant(v: ChunkVariant)
    ensures #[trigger] mn_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => no_d(s@),
        ChunkVariant::ParagraphBreak(s) => true,
        ChunkVariant::MathsBlock(m) => mn_maths(m),
        ChunkVariant::Command(c) => mn_command(c),
        ChunkVariant::Scope(s) => mn_scope(s),
        ChunkVariant::Environment(e) => mn_env(e),
    }
    }),
{
}

pub closed spec fn mn_command(c: Command) -> bool
    decreases c,
{
    !delim(c.label@) && mn_args(c.arguments@)
}

pub broadcast proof fn def_mn_command(c: Command)
    ensures #[trigger] mn_command(c) == ({
    !delim(c.label@) && mn_args(c.arguments@)
    }),
{
}

pub closed spec fn mn_scope(s: Scope) -> bool
    decreases s,
{
    mn_list(s.chunks@)
}

pub broadcast proof fn def_mn_scope(s: Scope)
    ensures #[trigger] mn_scope(s) == ({
    mn_list(s.chunks@)
    }),
{
}

pub closed spec fn mn_env(e: Environment) -> bool
    decreases e,
{
    mn_args(e.arguments@) && mn_list(e.content@)
}

pub broadcast proof fn def_mn_env(e: Environment)
    ensures #[trigger] mn_env(e) == ({
    mn_args(e.arguments@) && mn_list(e.content@)
    }),
{
}

pub closed spec fn mn_maths(m: MathsBlock) -> bool
    decreases m,
{
    (m.variant is Dollars ==> nod(t_list(m.content@)) && (m.raw_type is Inline ==> t_list(m.content@).len() > 0)) && (m.variant is Brackets ==> run(m.raw_type, t_list(m.content@)) == 0) && mn_list(m.content@)
}

pub broadcast proof fn def_mn_maths(m: MathsBlock)
    ensures #[trigger] mn_maths(m) == ({
    (m.variant is Dollars ==> nod(t_list(m.content@)) && (m.raw_type is Inline ==> t_list(m.content@).len() > 0)) && (m.variant is Brackets ==> run(m.raw_type, t_list(m.content@)) == 0) && mn_list(m.content@)
    }),
{
}

pub closed spec fn mn_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (mn_list(c.drop_last()) && mn_variant(c.last().variant))
    }
}

pub broadcast proof fn lemma_mn_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] mn_list(c) == true,
{
}

pub broadcast proof fn lemma_mn_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] mn_list(a.push(c)) == (mn_list(a) && mn_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_mn_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] mn_list(a + b) == (mn_list(a) && mn_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_mn_list_add(a, b.drop_last());
    }
}

pub closed spec fn mn_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (mn_args(c.drop_last()) && mn_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_mn_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] mn_args(c) == true,
{
}

pub broadcast proof fn lemma_mn_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] mn_args(a.push(c)) == (mn_args(a) && mn_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_mn_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] mn_args(a + b) == (mn_args(a) && mn_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_mn_args_add(a, b.drop_last());
    }
}

// ---- the characters, commands, groups and environments of a list in order, maths taken apart

pub closed spec fn t_variant(v: ChunkVariant) -> Seq<Tk>
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => chs(s@),
        ChunkVariant::ParagraphBreak(s) => chs(s@),
        ChunkVariant::MathsBlock(m) => t_maths(m),
        ChunkVariant::Command(c) => seq![Tk::Cmd(c.label@, t_args(c.arguments@))],
        ChunkVariant::Scope(s) => seq![Tk::Grp(sv_2(s.variant), t_list(s.chunks@))],
        ChunkVariant::Environment(e) => seq![Tk::Env(e.prec_begin@, e.label@, t_args(e.arguments@), t_list(e.content@), e.prec_end@)],
    }
}

pub broadcast proof fn def_t_variant(v: ChunkVariant)
    ensures #[trigger] t_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => chs(s@),
        ChunkVariant::ParagraphBreak(s) => chs(s@),
        ChunkVariant::MathsBlock(m) => t_maths(m),
        ChunkVariant::Command(c) => seq![Tk::Cmd(c.label@, t_args(c.arguments@))],
        ChunkVariant::Scope(s) => seq![Tk::Grp(sv_2(s.variant), t_list(s.chunks@))],
        ChunkVariant::Environment(e) => seq![Tk::Env(e.prec_begin@, e.label@, t_args(e.arguments@), t_list(e.content@), e.prec_end@)],
    }
    }),
{
}

pub closed spec fn t_maths(m: MathsBlock) -> Seq<Tk>
    decreases m,
{
    tm_open(m.variant, m.raw_type) + t_list(m.content@) + tm_close(m.variant, m.raw_type)
}

pub broadcast proof fn def_t_maths(m: MathsBlock)
    ensures #[trigger] t_maths(m) == ({
    tm_open(m.variant, m.raw_type) + t_list(m.content@) + tm_close(m.variant, m.raw_type)
    }),
{
}

pub closed spec fn t_list(c: Seq<Chunk>) -> Seq<Tk>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        t_list(c.drop_last()) + t_variant(c.last().variant)
    }
}

pub broadcast proof fn lemma_t_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] t_list(c) == Seq::<Tk>::empty(),
{
}

pub broadcast proof fn lemma_t_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] t_list(a.push(c)) == t_list(a) + t_variant(c.variant),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_t_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] t_list(a + b) == t_list(a) + t_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(t_list(a) + t_list(b) =~= t_list(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_t_list_add(a, b.drop_last());
        assert(t_list(a + b) =~= t_list(a) + t_list(b));
    }
}

pub closed spec fn t_args(c: Seq<(String, Scope)>) -> Seq<TkArg>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        t_args(c.drop_last()) + seq![TkArg { pre: c.last().0@, var: sv_2(c.last().1.variant), body: t_list(c.last().1.chunks@) }]
    }
}

pub broadcast proof fn lemma_t_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] t_args(c) == Seq::<TkArg>::empty(),
{
}

pub broadcast proof fn lemma_t_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] t_args(a.push(c)) == t_args(a) + seq![TkArg { pre: c.0@, var: sv_2(c.1.variant), body: t_list(c.1.chunks@) }],
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_t_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] t_args(a + b) == t_args(a) + t_args(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(t_args(a) + t_args(b) =~= t_args(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_t_args_add(a, b.drop_last());
        assert(t_args(a + b) =~= t_args(a) + t_args(b));
    }
}

// ---- stage 2: the same, and delimiters of maths that carry no arguments

pub closed spec fn t2_variant(v: ast2::ChunkVariant) -> Seq<Tk>
    decreases v,
{
    match v {
        ast2::ChunkVariant::Text(s) => chs(s@),
        ast2::ChunkVariant::Command(c) => seq![Tk::Cmd(c.label@, t2_args(c.arguments@))],
        ast2::ChunkVariant::Scope(s) => seq![Tk::Grp(s.variant, t2_list(s.chunks@))],
        ast2::ChunkVariant::Environment(e) => seq![Tk::Env(e.prec_begin@, e.label@, t2_args(e.arguments@), t2_list(e.content@), e.prec_end@)],
    }
}

pub broadcast proof fn def_t2_variant(v: ast2::ChunkVariant)
    ensures #[trigger] t2_variant(v) == ({
    match v {
        ast2::ChunkVariant::Text(s) => chs(s@),
        ast2::ChunkVariant::Command(c) => seq![Tk::Cmd(c.label@, t2_args(c.arguments@))],
        ast2::ChunkVariant::Scope(s) => seq![Tk::Grp(s.variant, t2_list(s.chunks@))],
        ast2::ChunkVariant::Environment(e) => seq![Tk::Env(e.prec_begin@, e.label@, t2_args(e.arguments@), t2_list(e.content@), e.prec_end@)],
    }
    }),
{
}

pub closed spec fn t2_list(c: Seq<ast2::Chunk>) -> Seq<Tk>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        t2_list(c.drop_last()) + t2_variant(c.last().variant)
    }
}

pub broadcast proof fn lemma_t2_list_empty(c: Seq<ast2::Chunk>)
    requires c.len() == 0,
    ensures #[trigger] t2_list(c) == Seq::<Tk>::empty(),
{
}

pub broadcast proof fn lemma_t2_list_push(a: Seq<ast2::Chunk>, c: ast2::Chunk)
    ensures #[trigger] t2_list(a.push(c)) == t2_list(a) + t2_variant(c.variant),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_t2_list_add(a: Seq<ast2::Chunk>, b: Seq<ast2::Chunk>)
    ensures #[trigger] t2_list(a + b) == t2_list(a) + t2_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(t2_list(a) + t2_list(b) =~= t2_list(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_t2_list_add(a, b.drop_last());
        assert(t2_list(a + b) =~= t2_list(a) + t2_list(b));
    }
}

pub closed spec fn t2_args(c: Seq<(String, ast2::Scope)>) -> Seq<TkArg>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        t2_args(c.drop_last()) + seq![TkArg { pre: c.last().0@, var: c.last().1.variant, body: t2_list(c.last().1.chunks@) }]
    }
}

pub broadcast proof fn lemma_t2_args_empty(c: Seq<(String, ast2::Scope)>)
    requires c.len() == 0,
    ensures #[trigger] t2_args(c) == Seq::<TkArg>::empty(),
{
}

pub broadcast proof fn lemma_t2_args_push(a: Seq<(String, ast2::Scope)>, c: (String, ast2::Scope))
    ensures #[trigger] t2_args(a.push(c)) == t2_args(a) + seq![TkArg { pre: c.0@, var: c.1.variant, body: t2_list(c.1.chunks@) }],
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_t2_args_add(a: Seq<(String, ast2::Scope)>, b: Seq<(String, ast2::Scope)>)
    ensures #[trigger] t2_args(a + b) == t2_args(a) + t2_args(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(t2_args(a) + t2_args(b) =~= t2_args(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_t2_args_add(a, b.drop_last());
        assert(t2_args(a + b) =~= t2_args(a) + t2_args(b));
    }
}

pub closed spec fn mo_variant(v: ast2::ChunkVariant) -> bool
    decreases v,
{
    match v {
        ast2::ChunkVariant::Text(s) => true,
        ast2::ChunkVariant::Command(c) => mo_command(c),
        ast2::ChunkVariant::Scope(s) => mo_scope(s),
        ast2::ChunkVariant::Environment(e) => mo_env(e),
    }
}

pub broadcast proof fn def_mo_variant(v: ast2::ChunkVariant)
    ensures #[trigger] mo_variant(v) == ({
    match v {
        ast2::ChunkVariant::Text(s) => true,
        ast2::ChunkVariant::Command(c) => mo_command(c),
        ast2::ChunkVariant::Scope(s) => mo_scope(s),
        ast2::ChunkVariant::Environment(e) => mo_env(e),
    }
    }),
{
}

pub closed spec fn mo_command(c: ast2::Command) -> bool
    decreases c,
{
    (delim(c.label@) ==> c.arguments@.len() == 0) && mo_args(c.arguments@)
}

pub broadcast proof fn def_mo_command(c: ast2::Command)
    ensures #[trigger] mo_command(c) == ({
    (delim(c.label@) ==> c.arguments@.len() == 0) && mo_args(c.arguments@)
    }),
{
}

pub closed spec fn mo_scope(s: ast2::Scope) -> bool
    decreases s,
{
    mo_list(s.chunks@)
}

pub broadcast proof fn def_mo_scope(s: ast2::Scope)
    ensures #[trigger] mo_scope(s) == ({
    mo_list(s.chunks@)
    }),
{
}

pub closed spec fn mo_env(e: ast2::Environment) -> bool
    decreases e,
{
    mo_args(e.arguments@) && mo_list(e.content@)
}

pub broadcast proof fn def_mo_env(e: ast2::Environment)
    ensures #[trigger] mo_env(e) == ({
    mo_args(e.arguments@) && mo_list(e.content@)
    }),
{
}

pub closed spec fn mo_list(c: Seq<ast2::Chunk>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (mo_list(c.drop_last()) && mo_variant(c.last().variant))
    }
}

pub broadcast proof fn lemma_mo_list_empty(c: Seq<ast2::Chunk>)
    requires c.len() == 0,
    ensures #[trigger] mo_list(c) == true,
{
}

pub broadcast proof fn lemma_mo_list_push(a: Seq<ast2::Chunk>, c: ast2::Chunk)
    ensures #[trigger] mo_list(a.push(c)) == (mo_list(a) && mo_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_mo_list_add(a: Seq<ast2::Chunk>, b: Seq<ast2::Chunk>)
    ensures #[trigger] mo_list(a + b) == (mo_list(a) && mo_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_mo_list_add(a, b.drop_last());
    }
}

pub closed spec fn mo_args(c: Seq<(String, ast2::Scope)>) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        (mo_args(c.drop_last()) && mo_scope(c.last().1))
    }
}

pub broadcast proof fn lemma_mo_args_empty(c: Seq<(String, ast2::Scope)>)
    requires c.len() == 0,
    ensures #[trigger] mo_args(c) == true,
{
}

pub broadcast proof fn lemma_mo_args_push(a: Seq<(String, ast2::Scope)>, c: (String, ast2::Scope))
    ensures #[trigger] mo_args(a.push(c)) == (mo_args(a) && mo_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_mo_args_add(a: Seq<(String, ast2::Scope)>, b: Seq<(String, ast2::Scope)>)
    ensures #[trigger] mo_args(a + b) == (mo_args(a) && mo_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_mo_args_add(a, b.drop_last());
    }
}


/// what `fmt` writes for an environment, piece by piece
pub proof fn lemma_env_text(o: Seq<char>, e: Environment)
    ensures
        o + "\\begin"@ + e.prec_begin@ + "{"@ + e.label@ + "}"@ + r_args(e.arguments@) + r_list(e.content@) + "\\end"@ + e.prec_end@ + "{"@ + e.label@ + "}"@
            == o + r_env(e),
{
    let b = "\\begin"@ + e.prec_begin@ + "{"@ + e.label@ + "}"@;
    let z = "\\end"@ + e.prec_end@ + "{"@ + e.label@ + "}"@;
    lemma_t_marks(e.prec_begin@, e.label@);
    lemma_t_marks(e.prec_end@, e.label@);
    let l = o + "\\begin"@ + e.prec_begin@ + "{"@ + e.label@ + "}"@ + r_args(e.arguments@) + r_list(e.content@);
    assert(l =~= o + b + r_args(e.arguments@) + r_list(e.content@));
    assert(l + "\\end"@ + e.prec_end@ + "{"@ + e.label@ + "}"@ =~= l + z);
    assert(l + z =~= o + (b + r_args(e.arguments@) + r_list(e.content@) + z));
}

/// what `fmt` writes for maths, piece by piece
pub open spec fn m_text(o: Seq<char>, m: MathsBlock) -> Seq<char> {
    match (m.variant, m.raw_type) {
        (MathsVariant::Brackets, MathsType::Outline) => o + "\\["@ + r_list(m.content@) + "\\]"@,
        (MathsVariant::Brackets, MathsType::Inline) => o + "\\("@ + r_list(m.content@) + "\\)"@,
        (MathsVariant::Dollars, MathsType::Outline) => o + "$$"@ + r_list(m.content@) + "$$"@,
        (MathsVariant::Dollars, MathsType::Inline) => o + "$"@ + r_list(m.content@) + "$"@,
    }
}

pub proof fn lemma_m_marks(o: Seq<char>, m: MathsBlock)
    ensures m_text(o, m) == o + r_maths(m),
{
    reveal_strlit("\\[");
    reveal_strlit("\\]");
    reveal_strlit("\\(");
    reveal_strlit("\\)");
    reveal_strlit("$$");
    reveal_strlit("$");
    assert("\\["@ =~= seq!['\\', '[']);
    assert("\\]"@ =~= seq!['\\', ']']);
    assert("\\("@ =~= seq!['\\', '(']);
    assert("\\)"@ =~= seq!['\\', ')']);
    assert("$$"@ =~= seq!['$', '$']);
    assert("$"@ =~= seq!['$']);
    assert(m_text(o, m) =~= o + r_maths(m));
}

pub broadcast proof fn lemma_m_lines(m: MathsBlock)
    ensures nl(#[trigger] r_maths(m)) == nl(r_list(m.content@)),
{
    lemma_nl_marks(m.variant, m.raw_type);
}

proof fn lemma_nl_marks(v: MathsVariant, t: MathsType)
    ensures nl(m_open(v, t)) == 0, nl(m_close(v, t)) == 0,
{
    match (v, t) {
        (MathsVariant::Brackets, MathsType::Outline) => {
            assert(m_open(v, t) =~= Seq::empty().push('\\').push('['));
            assert(m_close(v, t) =~= Seq::empty().push('\\').push(']'));
        },
        (MathsVariant::Brackets, MathsType::Inline) => {
            assert(m_open(v, t) =~= Seq::empty().push('\\').push('('));
            assert(m_close(v, t) =~= Seq::empty().push('\\').push(')'));
        },
        (MathsVariant::Dollars, MathsType::Outline) => {
            assert(m_open(v, t) =~= Seq::empty().push('$').push('$'));
            assert(m_close(v, t) =~= Seq::empty().push('$').push('$'));
        },
        (MathsVariant::Dollars, MathsType::Inline) => {
            assert(m_open(v, t) =~= Seq::empty().push('$'));
            assert(m_close(v, t) =~= Seq::empty().push('$'));
        },
    }
}

/// a character that has no place in a text
pub proof fn lemma_txt_one(done: Seq<char>, rest: Seq<char>, c: char)
    requires done.contains(c), special(c),
    ensures !txt_ok(done + rest), (done + rest).contains(c),
{
    let i = choose|i: int| 0 <= i < done.len() && done[i] == c;
    assert((done + rest)[i] == c);
    crate::ast1_spec::lemma_txt_def(done + rest);
}

// ---- line numbers of stage 2 chunks, counted from a given line

pub closed spec fn dnf2(c: Seq<ast2::Chunk>, k: int) -> bool
    decreases c,
{
    if c.len() == 0 {
        true
    } else {
        dnf2(c.drop_last(), k) && c.last().line_no == k + nl(r2_list(c.drop_last())) && dn2_variant(c.last().variant)
    }
}

pub broadcast proof fn lemma_dnf2_empty(c: Seq<ast2::Chunk>, k: int)
    requires c.len() == 0,
    ensures #[trigger] dnf2(c, k),
{
}

pub broadcast proof fn lemma_dnf2_push(a: Seq<ast2::Chunk>, c: ast2::Chunk, k: int)
    ensures #[trigger] dnf2(a.push(c), k) == (dnf2(a, k) && c.line_no == k + nl(r2_list(a)) && dn2_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dnf2_add(a: Seq<ast2::Chunk>, b: Seq<ast2::Chunk>, k: int)
    ensures #[trigger] dnf2(a + b, k) == (dnf2(a, k) && dnf2(b, k + nl(r2_list(a)))),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dnf2_add(a, b.drop_last(), k);
        crate::ast2_spec::lemma_r_list_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_dnf2_one(c: Seq<ast2::Chunk>)
    ensures #[trigger] dnf2(c, 1) == dn2_list(c),
    decreases c.len(),
{
    if c.len() > 0 {
        lemma_dnf2_one(c.drop_last());
        assert(c =~= c.drop_last().push(c.last()));
        crate::ast2_spec::lemma_dn_list_push(c.drop_last(), c.last());
    } else {
        crate::ast2_spec::lemma_dn_list_empty(c);
    }
}

// ---- back to stage 2

/// what `MathsBlock::into_chunks` does for dollars: put before a first text and after a last one,
/// or on their own
pub open spec fn dollars_before(o: Seq<ast2::Chunk>, d: Seq<char>, m: Seq<ast2::Chunk>) -> bool {
    if o.len() > 0 && o[0].variant is Text {
        &&& m.len() == o.len()
        &&& m[0].line_no == o[0].line_no
        &&& m[0].variant is Text
        &&& m[0].variant->Text_0@ == d + o[0].variant->Text_0@
        &&& m.skip(1) =~= o.skip(1)
    } else {
        &&& m.len() == o.len() + 1
        &&& m[0].line_no == 1
        &&& m[0].variant is Text
        &&& m[0].variant->Text_0@ == d
        &&& m.skip(1) =~= o
    }
}

pub open spec fn dollars_after(m: Seq<ast2::Chunk>, d: Seq<char>, f: Seq<ast2::Chunk>, lines: u32) -> bool {
    if m.last().variant is Text {
        &&& f.len() == m.len()
        &&& f.last().line_no == m.last().line_no
        &&& f.last().variant is Text
        &&& f.last().variant->Text_0@ == m.last().variant->Text_0@ + d
        &&& f.drop_last() =~= m.drop_last()
    } else {
        &&& f.len() == m.len() + 1
        &&& f.last().line_no == lines
        &&& f.last().variant is Text
        &&& f.last().variant->Text_0@ == d
        &&& f.drop_last() =~= m
    }
}

pub proof fn lemma_one2(x: ast2::Chunk, s: Seq<char>)
    requires x.variant is Text, x.variant->Text_0@ == s,
    ensures
        r2_list(seq![x]) == s,
        t2_list(seq![x]) == chs(s),
        dnf2(seq![x], x.line_no as int),
{
    let e = Seq::<ast2::Chunk>::empty();
    assert(seq![x] =~= e.push(x));
    crate::ast2_spec::lemma_r_list_push(e, x);
    crate::ast2_spec::lemma_r_list_empty(e);
    crate::ast2_spec::def_r_chunk(x);
    crate::ast2_spec::def_r_variant(x.variant);
    crate::ast2_spec::def_dn_variant(x.variant);
    lemma_t2_list_push(e, x);
    lemma_t2_list_empty(e);
    def_t2_variant(x.variant);
    lemma_dnf2_push(e, x, x.line_no as int);
    lemma_dnf2_empty(e, x.line_no as int);
    assert(Seq::<char>::empty() + s =~= s);
    assert(Seq::<Tk>::empty() + chs(s) =~= chs(s));
    assert(nl(Seq::<char>::empty()) == 0);
}

pub proof fn lemma_dollars_before(o: Seq<ast2::Chunk>, d: Seq<char>, m: Seq<ast2::Chunk>)
    requires dollars_before(o, d, m), nl(d) == 0, dnf2(o, 1),
    ensures r2_list(m) == d + r2_list(o), t2_list(m) == chs(d) + t2_list(o), dnf2(m, 1),
{
    broadcast use super::lemma_nl_add;
    let x = m[0];
    if o.len() > 0 && o[0].variant is Text {
        let y = o[0];
        let w = y.variant->Text_0@;
        let r = o.skip(1);
        assert(o =~= seq![y] + r);
        assert(m =~= seq![x] + r);
        lemma_one2(y, w);
        lemma_one2(x, d + w);
        crate::ast2_spec::lemma_r_list_add(seq![y], r);
        crate::ast2_spec::lemma_r_list_add(seq![x], r);
        lemma_t2_list_add(seq![y], r);
        lemma_t2_list_add(seq![x], r);
        lemma_chs_add(d, w);
        assert(d + w + r2_list(r) =~= d + (w + r2_list(r)));
        assert(chs(d) + chs(w) + t2_list(r) =~= chs(d) + (chs(w) + t2_list(r)));
        lemma_dnf2_add(seq![y], r, 1);
        lemma_dnf2_add(seq![x], r, 1);
        assert(dnf2(seq![y], 1));
        assert(seq![y] =~= Seq::empty().push(y));
        lemma_dnf2_push(Seq::empty(), y, 1);
        assert(nl(Seq::<char>::empty()) == 0);
        crate::ast2_spec::lemma_r_list_empty(Seq::empty());
        assert(y.line_no == 1);
    } else {
        assert(m =~= seq![x] + o);
        lemma_one2(x, d);
        crate::ast2_spec::lemma_r_list_add(seq![x], o);
        lemma_t2_list_add(seq![x], o);
        lemma_dnf2_add(seq![x], o, 1);
    }
}

pub proof fn lemma_dollars_after(m: Seq<ast2::Chunk>, d: Seq<char>, f: Seq<ast2::Chunk>, lines: u32)
    requires dollars_after(m, d, f, lines), m.len() > 0, dnf2(m, 1), lines == 1 + nl(r2_list(m)),
    ensures r2_list(f) == r2_list(m) + d, t2_list(f) == t2_list(m) + chs(d), dnf2(f, 1),
{
    broadcast use super::lemma_nl_add;
    let x = f.last();
    if m.last().variant is Text {
        let y = m.last();
        let w = y.variant->Text_0@;
        let r = m.drop_last();
        assert(m =~= r.push(y));
        assert(f =~= r.push(x));
        assert(m =~= r + seq![y]);
        assert(f =~= r + seq![x]);
        lemma_one2(y, w);
        lemma_one2(x, w + d);
        crate::ast2_spec::lemma_r_list_add(r, seq![y]);
        crate::ast2_spec::lemma_r_list_add(r, seq![x]);
        lemma_t2_list_add(r, seq![y]);
        lemma_t2_list_add(r, seq![x]);
        lemma_chs_add(w, d);
        assert(r2_list(r) + (w + d) =~= r2_list(r) + w + d);
        assert(t2_list(r) + (chs(w) + chs(d)) =~= t2_list(r) + chs(w) + chs(d));
        lemma_dnf2_push(r, y, 1);
        lemma_dnf2_push(r, x, 1);
        crate::ast2_spec::def_dn_variant(x.variant);
    } else {
        assert(f =~= m + seq![x]);
        assert(f =~= m.push(x));
        lemma_one2(x, d);
        crate::ast2_spec::lemma_r_list_add(m, seq![x]);
        lemma_t2_list_add(m, seq![x]);
        lemma_dnf2_push(m, x, 1);
        crate::ast2_spec::def_dn_variant(x.variant);
    }
}

/// the delimiters of maths as dollars
pub proof fn lemma_dollars(d: Seq<char>)
    requires d == "$"@ || d == "$$"@,
    ensures
        nl(d) == 0,
        d == "$"@ ==> d == seq!['$'] && chs(d) == seq![Tk::Ch('$')] && d + d == "$$"@,
        d == "$$"@ ==> d == seq!['$', '$'] && chs(d) == seq![Tk::Ch('$'), Tk::Ch('$')],
{
    reveal_strlit("$$");
    reveal_strlit("$");
    assert("$$"@ =~= seq!['$', '$']);
    assert("$"@ =~= seq!['$']);
    assert(seq!['$', '$'] =~= Seq::empty().push('$').push('$'));
    assert(seq!['$'] =~= Seq::empty().push('$'));
    broadcast use super::group_seq;
    if d == "$"@ {
        assert(chs(d) =~= seq![Tk::Ch('$')]);
    } else {
        assert(chs(d) =~= seq![Tk::Ch('$'), Tk::Ch('$')]);
    }
}

/// the delimiters of maths as commands
pub proof fn lemma_delim(x: ast2::Chunk, l: Seq<char>)
    requires x.variant is Command, x.variant->Command_0.label@ == l, delim(l), x.variant->Command_0.arguments@.len() == 0,
    ensures
        r2_list(seq![x]) == seq!['\\', l[0]],
        nl(r2_list(seq![x])) == 0,
        t2_list(seq![x]) == seq![Tk::Cmd(l, Seq::empty())],
        dnf2(seq![x], x.line_no as int),
{
    let e = Seq::<ast2::Chunk>::empty();
    let c = x.variant->Command_0;
    assert(seq![x] =~= e.push(x));
    broadcast use crate::ast2_spec::group_ast2, super::group_seq;
    crate::ast2_spec::def_r_chunk(x);
    crate::ast2_spec::def_r_variant(x.variant);
    crate::ast2_spec::def_r_command(c);
    crate::ast2_spec::def_dn_variant(x.variant);
    crate::ast2_spec::def_dn_command(c);
    lemma_t2_list_push(e, x);
    lemma_t2_list_empty(e);
    def_t2_variant(x.variant);
    lemma_t2_args_empty(c.arguments@);
    lemma_dnf2_push(e, x, x.line_no as int);
    lemma_dnf2_empty(e, x.line_no as int);
    assert(r2_args(c.arguments@) == Seq::<char>::empty());
    assert(dn2_args(c.arguments@));
    assert(r2_list(seq![x]) =~= seq!['\\', l[0]]);
    assert(seq!['\\', l[0]] =~= Seq::empty().push('\\').push(l[0]));
    assert(t2_list(seq![x]) =~= seq![Tk::Cmd(l, Seq::empty())]);
    assert(nl(Seq::<char>::empty()) == 0);
    assert(r2_list(e) =~= Seq::<char>::empty());
}

// ---- paragraphs

/// `x` may follow the pieces `q` of a text that starts in line `l`
pub open spec fn piece(q: Seq<Chunk>, x: Chunk, l: int) -> bool {
    &&& x.line_no == l + nl(r_list(q))
    &&& match x.variant {
        // some text without a break, up to the first line break of a break and from the end of its whitespace
        ChunkVariant::Text(s) => {
            &&& s@.len() > 0
            &&& !brk(s@)
            &&& q.len() > 0 ==> !ws(s@[0]) && match q.last().variant {
                ChunkVariant::ParagraphBreak(_) => true,
                _ => false,
            }
        },
        ChunkVariant::ParagraphBreak(s) => {
            &&& pb_ok(s@)
            &&& s@[0] == '\n'
            &&& q.len() > 0 ==> match q.last().variant {
                ChunkVariant::Text(t) => !tail_nl(t@),
                _ => false,
            }
        },
        _ => false,
    }
}

/// the pieces of a text that starts in line `l`
pub closed spec fn pieces(p: Seq<Chunk>, l: int) -> bool
    decreases p.len(),
{
    p.len() == 0 || (pieces(p.drop_last(), l) && piece(p.drop_last(), p.last(), l))
}

/// what a chunk is split into
pub open spec fn split_as(x: Chunk, p: Seq<Chunk>) -> bool {
    match x.variant {
        ChunkVariant::Text(s) => pieces(p, x.line_no as int) && r_list(p) == s@,
        _ => p == seq![x],
    }
}

/// the chunks of `a`, the texts split at paragraph breaks
pub closed spec fn is_para(a: Seq<Chunk>, b: Seq<Chunk>) -> bool
    decreases a.len(),
{
    if a.len() == 0 {
        b.len() == 0
    } else {
        exists|k: int| 0 <= k <= b.len() && is_para(a.drop_last(), #[trigger] b.take(k)) && split_as(a.last(), b.skip(k))
    }
}

pub proof fn lemma_is_para_empty(a: Seq<Chunk>, b: Seq<Chunk>)
    requires a.len() == 0, b.len() == 0,
    ensures is_para(a, b),
{
}

pub proof fn lemma_is_para_push(a: Seq<Chunk>, x: Chunk, b: Seq<Chunk>, p: Seq<Chunk>)
    requires is_para(a, b), split_as(x, p),
    ensures is_para(a.push(x), b + p),
{
    let k = b.len() as int;
    assert(a.push(x).drop_last() =~= a);
    assert((b + p).take(k) =~= b);
    assert((b + p).skip(k) =~= p);
}

pub broadcast proof fn lemma_pieces_empty(p: Seq<Chunk>, l: int)
    requires p.len() == 0,
    ensures #[trigger] pieces(p, l),
{
}

pub broadcast proof fn lemma_pieces_push(p: Seq<Chunk>, x: Chunk, l: int)
    ensures #[trigger] pieces(p.push(x), l) == (pieces(p, l) && piece(p, x, l)),
{
    assert(p.push(x).drop_last() =~= p);
}

/// like `w`, texts with breaks allowed
pub open spec fn pre_w(v: ChunkVariant) -> bool {
    match v {
        ChunkVariant::Text(s) => w_text(s@),
        _ => w_variant(v),
    }
}

pub closed spec fn pre_w_list(c: Seq<Chunk>) -> bool
    decreases c.len(),
{
    c.len() == 0 || (pre_w_list(c.drop_last()) && pre_w(c.last().variant))
}

pub broadcast proof fn lemma_pre_w_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] pre_w_list(c),
{
}

pub broadcast proof fn lemma_pre_w_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] pre_w_list(a.push(c)) == (pre_w_list(a) && pre_w(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub proof fn lemma_w_text_parts(a: Seq<char>, b: Seq<char>)
    requires w_text(a + b),
    ensures w_text(a), w_text(b),
    decreases b.len(),
{
    broadcast use crate::ast1_spec::lemma_w_text_push, crate::ast1_spec::lemma_w_text_empty;
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        assert(b =~= b.drop_last().push(b.last()));
        lemma_w_text_parts(a, b.drop_last());
    }
}

/// pieces are as good as the text
pub proof fn lemma_pieces(n: Seq<Chunk>, p: Seq<Chunk>, l: int, s: Seq<char>)
    requires pieces(p, l), r_list(p) == s,
    ensures
        t_list(p) == chs(s),
        no_d(s) ==> mn_list(p),
        w_text(s) ==> w_list(p),
        dn_list(n) && l == 1 + nl(r_list(n)) ==> dn_list(n + p),
    decreases p.len(),
{
    broadcast use super::group_seq;
    if p.len() == 0 {
        assert(n + p =~= n);
        lemma_t_list_empty(p);
        lemma_r_list_empty(p);
        lemma_mn_list_empty(p);
        lemma_w_list_empty(p);
    } else {
        let q = p.drop_last();
        let x = p.last();
        assert(p =~= q.push(x));
        assert(n + p =~= (n + q).push(x));
        lemma_r_list_push(q, x);
        def_r_chunk(x);
        def_r_variant(x.variant);
        lemma_t_list_push(q, x);
        def_t_variant(x.variant);
        lemma_mn_list_push(q, x);
        def_mn_variant(x.variant);
        lemma_w_list_push(q, x);
        def_w_variant(x.variant);
        lemma_dn_list_push(n + q, x);
        def_dn_variant(x.variant);
        lemma_r_list_add(n, q);
        let a = r_list(q);
        let b = r_variant(x.variant);
        lemma_pieces(n, q, l, a);
        lemma_chs_add(a, b);
        lemma_no_d_add(a, b);
        if w_text(s) {
            lemma_w_text_parts(a, b);
        }
    }
}

/// splitting into paragraphs keeps what there is
pub broadcast proof fn lemma_para(a: Seq<Chunk>, b: Seq<Chunk>)
    requires #[trigger] is_para(a, b),
    ensures
        r_list(b) == r_list(a),
        t_list(b) == t_list(a),
        dn_list(a) ==> dn_list(b),
        mn_list(a) ==> mn_list(b),
        pre_w_list(a) ==> w_list(b),
    decreases a.len(),
{
    broadcast use group_ast3;
    if a.len() > 0 {
        let q = a.drop_last();
        let x = a.last();
        let k = choose|k: int| 0 <= k <= b.len() && is_para(q, #[trigger] b.take(k)) && split_as(x, b.skip(k));
        let n = b.take(k);
        let p = b.skip(k);
        assert(b =~= n + p);
        assert(a =~= q.push(x));
        lemma_para(q, n);
        lemma_r_list_add(n, p);
        lemma_t_list_add(n, p);
        lemma_mn_list_add(n, p);
        lemma_w_list_add(n, p);
        match x.variant {
            ChunkVariant::Text(s) => {
                lemma_pieces(n, p, x.line_no as int, s@);
            },
            _ => {
                assert(p =~= Seq::empty().push(x));
                assert(b =~= n.push(x));
            },
        }
    }
}

/// in the middle of a text: the pieces `p` so far, then text `tb` (from line `tl`), then whitespace `buf`
/// (from line `bl`) with `consec` line breaks
pub open spec fn p_inv(p: Seq<Chunk>, l: int, done: Seq<char>, tb: Seq<char>, buf: Seq<char>, consec: int, tl: int, bl: int) -> bool {
    &&& pieces(p, l)
    &&& r_list(p) + tb + buf == done
    &&& consec >= 0
    &&& consec == 0 ==> buf.len() == 0
    &&& consec >= 1 ==> buf.len() > 0 && buf[0] == '\n' && all_ws(buf) && bl == l + nl(r_list(p)) + nl(tb)
    &&& nl(buf) == consec
    &&& tb.len() > 0 ==> tl == l + nl(r_list(p))
    &&& p.len() == 0 ==> tl == l
    &&& if consec < 2 {
        !brk(tb) && !tail_nl(tb) && (p.len() > 0 ==> p.last().variant is ParagraphBreak && tb.len() > 0 && !ws(tb[0]))
    } else {
        tb.len() == 0 && (p.len() > 0 ==> p.last().variant is Text && !tail_nl(p.last().variant->Text_0@))
    }
}

pub open spec fn is_text(x: Chunk, l: int, s: Seq<char>) -> bool {
    x.line_no == l && x.variant is Text && x.variant->Text_0@ == s
}

pub open spec fn is_break(x: Chunk, l: int, s: Seq<char>) -> bool {
    x.line_no == l && x.variant is ParagraphBreak && x.variant->ParagraphBreak_0@ == s
}

/// text, whitespace with a line break at most, something else
pub proof fn lemma_no_brk(tb: Seq<char>, buf: Seq<char>)
    requires !brk(tb), !tail_nl(tb), all_ws(buf), nl(buf) <= 1,
    ensures !brk(tb + buf), nl(buf) == 0 ==> !tail_nl(tb + buf),
    decreases buf.len(),
{
    broadcast use super::group_seq, lemma_all_ws_push, lemma_brk_push, lemma_tail_nl_push;
    if buf.len() == 0 {
        assert(tb + buf =~= tb);
    } else {
        let b = buf.drop_last();
        let c = buf.last();
        assert(buf =~= b.push(c));
        assert(tb + buf =~= (tb + b).push(c));
        lemma_no_brk(tb, b);
    }
}

/// one character of a text
pub proof fn lemma_p_step(
    p: Seq<Chunk>, tb: Seq<char>, buf: Seq<char>, consec: int, tl: int, bl: int,
    l: int, done: Seq<char>, c: char,
    p2: Seq<Chunk>, tb2: Seq<char>, buf2: Seq<char>, consec2: int, tl2: int, bl2: int,
)
    requires
        p_inv(p, l, done, tb, buf, consec, tl, bl),
        if c == '\n' {
            if consec == 1 {
                &&& consec2 == 2 && buf2 == buf.push(c) && bl2 == bl && tb2.len() == 0 && tl2 == tl
                &&& if tb.len() > 0 { p2.len() == p.len() + 1 && p2.drop_last() =~= p && is_text(p2.last(), tl, tb) } else { p2 == p }
            } else {
                &&& consec2 == consec + 1 && buf2 == buf.push(c) && tb2 == tb && p2 == p && tl2 == tl
                &&& bl2 == if consec == 0 { l + nl(done) } else { bl }
            }
        } else if ws(c) {
            if consec == 0 {
                consec2 == 0 && tb2 == tb.push(c) && buf2 == buf && p2 == p && tl2 == tl && bl2 == bl
            } else {
                consec2 == consec && buf2 == buf.push(c) && tb2 == tb && p2 == p && tl2 == tl && bl2 == bl
            }
        } else if consec == 0 {
            consec2 == 0 && tb2 == tb.push(c) && buf2 == buf && p2 == p && bl2 == bl && tl2 == (if tb.len() == 0 { l + nl(done) } else { tl })
        } else if consec == 1 {
            consec2 == 0 && tb2 == (tb + buf).push(c) && buf2.len() == 0 && p2 == p && tl2 == (if tb.len() == 0 { bl } else { tl })
        } else {
            &&& consec2 == 0 && tb2 == tb.push(c) && buf2.len() == 0 && tl2 == l + nl(done)
            &&& p2.len() == p.len() + 1 && p2.drop_last() =~= p && is_break(p2.last(), bl, buf)
        },
    ensures
        p_inv(p2, l, done.push(c), tb2, buf2, consec2, tl2, bl2),
{
    broadcast use super::group_seq, lemma_all_ws_push, lemma_all_ws_empty, lemma_brk_push, lemma_brk_empty, lemma_tail_nl_push, lemma_tail_nl_empty;
    let d = done.push(c);
    let e = Seq::<char>::empty();
    assert(nl(done) == nl(r_list(p)) + nl(tb) + nl(buf));
    if c == '\n' && consec == 1 && tb.len() > 0 {
        let x = p2.last();
        assert(p2 =~= p.push(x));
        lemma_pieces_push(p, x, l);
        lemma_r_list_push(p, x);
        def_r_chunk(x);
        def_r_variant(x.variant);
        assert(r_list(p2) + tb2 + buf2 =~= d);
    } else if c != '\n' && !ws(c) && consec >= 2 {
        let x = p2.last();
        assert(p2 =~= p.push(x));
        lemma_pieces_push(p, x, l);
        lemma_r_list_push(p, x);
        def_r_chunk(x);
        def_r_variant(x.variant);
        assert(tb =~= e);
        assert(r_list(p2) + tb2 + buf2 =~= d);
    } else if c != '\n' && !ws(c) && consec == 1 {
        lemma_no_brk(tb, buf);
        assert(r_list(p2) + tb2 + buf2 =~= d);
        if tb.len() == 0 {
            assert(tb + buf =~= buf);
        }
    } else {
        assert(r_list(p2) + tb2 + buf2 =~= d);
    }
}

/// the end of a text
pub proof fn lemma_p_end(p: Seq<Chunk>, tb: Seq<char>, buf: Seq<char>, consec: int, tl: int, bl: int, l: int, s: Seq<char>, p2: Seq<Chunk>)
    requires
        p_inv(p, l, s, tb, buf, consec, tl, bl),
        if buf.len() > 0 && consec > 1 {
            p2.len() == p.len() + 1 && p2.drop_last() =~= p && is_break(p2.last(), bl, buf)
        } else if tb.len() + buf.len() > 0 {
            p2.len() == p.len() + 1 && p2.drop_last() =~= p && is_text(p2.last(), tl, tb + buf)
        } else {
            p2 == p
        },
    ensures
        pieces(p2, l),
        r_list(p2) == s,
{
    broadcast use super::group_seq;
    if buf.len() == 0 && consec > 1 {
        assert(false);
    }
    if p2 == p {
        assert(r_list(p) + tb + buf =~= r_list(p));
    } else {
        let x = p2.last();
        assert(p2 =~= p.push(x));
        lemma_pieces_push(p, x, l);
        lemma_r_list_push(p, x);
        def_r_chunk(x);
        def_r_variant(x.variant);
        assert(r_list(p2) =~= s);
        if !(buf.len() > 0 && consec > 1) {
            if consec == 0 {
                lemma_all_ws_empty(buf);
            }
            lemma_no_brk(tb, buf);
            if tb.len() > 0 {
                assert((tb + buf)[0] == tb[0]);
            }
        }
    }
}

// ---- line numbers

/// the chunks of a list carry the lines they start in, counted from 1
pub closed spec fn num(c: Seq<Chunk>) -> bool
    decreases c.len(),
{
    c.len() == 0 || (num(c.drop_last()) && c.last().line_no == 1 + nl(r_list(c.drop_last())))
}

pub broadcast proof fn lemma_num_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] num(c),
{
}

pub broadcast proof fn lemma_num_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] num(a.push(c)) == (num(a) && c.line_no == 1 + nl(r_list(a))),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_num_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] num(a + b) ==> num(a),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_num_add(a, b.drop_last());
    }
}

/// the line a list ends in
pub open spec fn end_line(c: Seq<Chunk>) -> int {
    if c.len() == 0 {
        1
    } else {
        c.last().line_no + nl(r_chunk(c.last()))
    }
}

/// a misnumbered chunk that `e` is about
pub open spec fn bad_num(c: Seq<Chunk>, e: InternalError) -> bool {
    match e {
        InternalError::IncorrectChunkLineNumber { expected, got } => exists|i: int|
            0 <= i < c.len() && (#[trigger] c[i]).line_no == got && got != expected && expected == 1 + nl(
                r_list(c.take(i)),
            ),
        _ => false,
    }
}

/// what pushing does to the list
pub open spec fn is_pushed(o: Seq<Chunk>, x: Chunk, f: Seq<Chunk>) -> bool {
    if merges(o, x.variant) {
        &&& f.len() == o.len()
        &&& f.drop_last() =~= o.drop_last()
        &&& f.last().line_no == o.last().line_no
        &&& f.last().variant is Text
        &&& f.last().variant->Text_0@ == merged(o, x.variant)
    } else {
        f =~= o.push(x)
    }
}

/// whether what is pushed goes into the text at the end
pub open spec fn merges(o: Seq<Chunk>, v: ChunkVariant) -> bool {
    o.len() > 0 && o.last().variant is Text && v is Text
}

pub open spec fn merged(o: Seq<Chunk>, v: ChunkVariant) -> Seq<char> {
    o.last().variant->Text_0@ + v->Text_0@
}

/// the text that pushing makes is a valid one
pub open spec fn ok_merge(o: Seq<Chunk>, v: ChunkVariant) -> bool {
    merges(o, v) ==> txt_ok(merged(o, v)) && !brk(merged(o, v))
}

pub open spec fn bad_merge(o: Seq<Chunk>, v: ChunkVariant, x: InternalError) -> bool {
    merges(o, v) && (bad_text(merged(o, v), x) || (x is UnbrokenParagraph && brk(merged(o, v))))
}

/// the printed document
pub closed spec fn r_doc(d: Document) -> Seq<char> {
    r_list(d.preamable@) + (t_begin(d.body_begin_prec@, "document"@) + r_args(d.body_args@)) + r_list(d.body@) + t_end(
        d.body_end_prec@,
        "document"@,
    ) + r_list(d.trailing@)
}

/// its lines
pub broadcast proof fn lemma_r_doc(d: Document)
    ensures
        nl(#[trigger] r_doc(d)) == nl(r_list(d.preamable@)) + nl(d.body_begin_prec@) + nl(r_args(d.body_args@)) + nl(r_list(d.body@))
            + nl(d.body_end_prec@) + nl(r_list(d.trailing@)),
{
    broadcast use crate::ast2_spec::lemma_t_begin, crate::ast2_spec::lemma_t_end;
    reveal_strlit("document");
    assert("document"@ =~= Seq::empty().push('d').push('o').push('c').push('u').push('m').push('e').push('n').push('t'));
    assert(nl("document"@) == 0);
}

/// an argument holding the name of the environment
pub open spec fn is_doc_arg(x: (String, Scope), p: Seq<char>) -> bool {
    &&& x.0@ == p
    &&& x.1.variant is Curly
    &&& x.1.chunks@.len() == 1
    &&& x.1.chunks@[0].variant is Text
    &&& x.1.chunks@[0].variant->Text_0@ == "document"@
}

proof fn lemma_doc_arg(x: (String, Scope), p: Seq<char>, a: Seq<(String, Scope)>)
    requires is_doc_arg(x, p),
    ensures r_args(seq![x] + a) == p + (seq!['{'] + "document"@ + seq!['}']) + r_args(a),
{
    broadcast use group_ast3, super::group_seq;
    let c = x.1.chunks@;
    let e = Seq::<(String, Scope)>::empty();
    assert(c =~= Seq::empty().push(c[0]));
    assert(seq![x] =~= e.push(x));
    lemma_r_args_add(seq![x], a);
    lemma_r_args_push(e, x);
    def_r_variant(c[0].variant);
    assert(r_list(c) =~= "document"@);
    def_r_scope(x.1);
    assert(r_args(seq![x]) =~= p + (seq!['{'] + "document"@ + seq!['}']));
}

/// the command that `fmt` prints before the body
pub proof fn lemma_doc_begin(l: Seq<Chunk>, x: (String, Scope), p: Seq<char>, a: Seq<(String, Scope)>)
    requires
        l.len() == 1,
        l[0].variant is Command,
        l[0].variant->Command_0.label@ == "begin"@,
        l[0].variant->Command_0.arguments@ == seq![x] + a,
        is_doc_arg(x, p),
    ensures r_list(l) == t_begin(p, "document"@) + r_args(a),
{
    broadcast use group_ast3, super::group_seq;
    let c = l[0].variant->Command_0;
    assert(l =~= Seq::empty().push(l[0]));
    lemma_doc_arg(x, p, a);
    lemma_t_marks(p, "document"@);
    reveal_strlit("begin");
    reveal_strlit("\\begin");
    reveal_strlit("{");
    reveal_strlit("}");
    assert(seq!['\\'] + "begin"@ =~= "\\begin"@);
    assert("{"@ =~= seq!['{']);
    assert("}"@ =~= seq!['}']);
    def_r_variant(l[0].variant);
    def_r_command(c);
    assert(r_list(l) =~= r_command(c));
    assert(r_command(c) =~= "\\begin"@ + p + "{"@ + "document"@ + "}"@ + r_args(a));
}

/// and after it
pub proof fn lemma_doc_end(l: Seq<Chunk>, x: (String, Scope), p: Seq<char>)
    requires
        l.len() == 1,
        l[0].variant is Command,
        l[0].variant->Command_0.label@ == "end"@,
        l[0].variant->Command_0.arguments@ == seq![x],
        is_doc_arg(x, p),
    ensures r_list(l) == t_end(p, "document"@),
{
    broadcast use group_ast3, super::group_seq;
    let c = l[0].variant->Command_0;
    let a = Seq::<(String, Scope)>::empty();
    assert(l =~= Seq::empty().push(l[0]));
    assert(c.arguments@ =~= seq![x] + a);
    lemma_doc_arg(x, p, a);
    lemma_t_marks(p, "document"@);
    reveal_strlit("end");
    reveal_strlit("\\end");
    reveal_strlit("{");
    reveal_strlit("}");
    assert(seq!['\\'] + "end"@ =~= "\\end"@);
    assert("{"@ =~= seq!['{']);
    assert("}"@ =~= seq!['}']);
    def_r_variant(l[0].variant);
    def_r_command(c);
    assert(r_list(l) =~= r_command(c));
    assert(r_command(c) =~= "\\end"@ + p + "{"@ + "document"@ + "}"@);
}

pub proof fn lemma_r_doc_def(d: Document)
    ensures
        r_doc(d) == r_list(d.preamable@) + (t_begin(d.body_begin_prec@, "document"@) + r_args(d.body_args@)) + r_list(d.body@) + t_end(
            d.body_end_prec@,
            "document"@,
        ) + r_list(d.trailing@),
{
}

/// pushing onto a stage 2 list
pub proof fn lemma_pushed2(o: Seq<ast2::Chunk>, x: ast2::Chunk, f: Seq<ast2::Chunk>)
    requires crate::ast2_spec::is_pushed(o, x, f),
    ensures
        r2_list(f) == r2_list(o) + r2_variant(x.variant),
        t2_list(f) == t2_list(o) + t2_variant(x.variant),
        dnf2(o, 1) && x.line_no == 1 + nl(r2_list(o)) && dn2_variant(x.variant) ==> dnf2(f, 1),
{
    broadcast use crate::ast2_spec::group_ast2, super::group_seq;
    lemma_dnf2_push(o, x, 1);
    lemma_t2_list_push(o, x);
    if o.len() > 0 && o.last().variant is Text && x.variant is Text {
        let d = o.drop_last();
        let l = o.last();
        let k = f.last();
        let a = l.variant->Text_0@;
        let b = x.variant->Text_0@;
        assert(o =~= d.push(l));
        assert(f =~= d.push(k));
        lemma_dnf2_push(d, l, 1);
        lemma_dnf2_push(d, k, 1);
        lemma_t2_list_push(d, l);
        lemma_t2_list_push(d, k);
        def_t2_variant(l.variant);
        def_t2_variant(k.variant);
        def_t2_variant(x.variant);
        lemma_chs_add(a, b);
        assert(k.variant->Text_0@ =~= a + b);
        assert(r2_list(f) =~= r2_list(o) + r2_variant(x.variant));
        assert(t2_list(d) + (chs(a) + chs(b)) =~= t2_list(d) + chs(a) + chs(b));
    } else {
        assert(f =~= o.push(x));
    }
}

// ---- the text of pieces

pub closed spec fn rt(s: Seq<Tk>) -> Seq<char>
    decreases s,
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        rt(s.drop_last()) + rt1(s.last())
    }
}

pub closed spec fn rt1(k: Tk) -> Seq<char>
    decreases k,
{
    match k {
        Tk::Ch(c) => seq![c],
        Tk::Cmd(l, a) => seq!['\\'] + l + rta(a),
        Tk::Grp(v, b) => seq![crate::ast2_spec::sv_open(v)] + rt(b) + seq![crate::ast2_spec::sv_close(v)],
        Tk::Env(p, l, a, b, q) => t_begin(p, l) + rta(a) + rt(b) + t_end(q, l),
    }
}

pub closed spec fn rta(s: Seq<TkArg>) -> Seq<char>
    decreases s,
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        rta(s.drop_last()) + (s.last().pre + (seq![crate::ast2_spec::sv_open(s.last().var)] + rt(s.last().body) + seq![
            crate::ast2_spec::sv_close(s.last().var),
        ]))
    }
}

pub proof fn lemma_rt_empty(s: Seq<Tk>)
    requires s.len() == 0,
    ensures rt(s) == Seq::<char>::empty(),
{
}

pub proof fn lemma_rt_push(s: Seq<Tk>, k: Tk)
    ensures rt(s.push(k)) == rt(s) + rt1(k),
{
    assert(s.push(k).drop_last() =~= s);
}

pub proof fn lemma_rt_add(a: Seq<Tk>, b: Seq<Tk>)
    ensures rt(a + b) == rt(a) + rt(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(rt(a) + rt(b) =~= rt(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_rt_add(a, b.drop_last());
        assert(rt(a + b) =~= rt(a) + rt(b));
    }
}

pub proof fn lemma_rt_one(k: Tk)
    ensures rt(seq![k]) == rt1(k),
{
    let e = Seq::<Tk>::empty();
    assert(seq![k] =~= e.push(k));
    lemma_rt_push(e, k);
    lemma_rt_empty(e);
    assert(Seq::<char>::empty() + rt1(k) =~= rt1(k));
}

pub proof fn lemma_rta_push(s: Seq<TkArg>, k: TkArg)
    ensures
        rta(s.push(k)) == rta(s) + (k.pre + (seq![crate::ast2_spec::sv_open(k.var)] + rt(k.body) + seq![crate::ast2_spec::sv_close(k.var)])),
{
    assert(s.push(k).drop_last() =~= s);
}

pub proof fn lemma_rt_chs(s: Seq<char>)
    ensures rt(chs(s)) == s,
    decreases s.len(),
{
    if s.len() == 0 {
        lemma_chs_empty(s);
        assert(s =~= Seq::empty());
    } else {
        let a = s.drop_last();
        assert(s =~= a.push(s.last()));
        lemma_chs_push(a, s.last());
        lemma_rt_chs(a);
        lemma_rt_push(chs(a), Tk::Ch(s.last()));
    }
}

/// the text of a list is the text of its pieces: stage 2
pub proof fn lemma_rt2(c: Seq<ast2::Chunk>)
    ensures rt(t2_list(c)) == r2_list(c),
    decreases c,
{
    broadcast use group_ast3;
    if c.len() == 0 {
        lemma_t2_list_empty(c);
        crate::ast2_spec::lemma_r_list_empty(c);
    } else {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_t2_list_push(a, x);
        crate::ast2_spec::lemma_r_list_push(a, x);
        crate::ast2_spec::def_r_chunk(x);
        lemma_rt2(a);
        lemma_rt2_variant(x.variant);
        lemma_rt_add(t2_list(a), t2_variant(x.variant));
    }
}

pub proof fn lemma_rt2_variant(v: ast2::ChunkVariant)
    ensures rt(t2_variant(v)) == r2_variant(v),
    decreases v,
{
    def_t2_variant(v);
    crate::ast2_spec::def_r_variant(v);
    match v {
        ast2::ChunkVariant::Text(s) => {
            lemma_rt_chs(s@);
        },
        ast2::ChunkVariant::Command(c) => {
            lemma_rt2_args(c.arguments@);
            crate::ast2_spec::def_r_command(c);
            lemma_rt_one(Tk::Cmd(c.label@, t2_args(c.arguments@)));
        },
        ast2::ChunkVariant::Scope(s) => {
            lemma_rt2(s.chunks@);
            crate::ast2_spec::def_r_scope(s);
            lemma_rt_one(Tk::Grp(s.variant, t2_list(s.chunks@)));
        },
        ast2::ChunkVariant::Environment(e) => {
            lemma_rt2_args(e.arguments@);
            lemma_rt2(e.content@);
            crate::ast2_spec::def_r_env(e);
            lemma_rt_one(Tk::Env(e.prec_begin@, e.label@, t2_args(e.arguments@), t2_list(e.content@), e.prec_end@));
        },
    }
}

pub proof fn lemma_rt2_args(c: Seq<(String, ast2::Scope)>)
    ensures rta(t2_args(c)) == r2_args(c),
    decreases c,
{
    if c.len() == 0 {
        lemma_t2_args_empty(c);
        crate::ast2_spec::lemma_r_args_empty(c);
    } else {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_t2_args_push(a, x);
        crate::ast2_spec::lemma_r_args_push(a, x);
        crate::ast2_spec::def_r_scope(x.1);
        lemma_rt2_args(a);
        lemma_rt2(x.1.chunks@);
        let k = TkArg { pre: x.0@, var: x.1.variant, body: t2_list(x.1.chunks@) };
        assert(t2_args(a) + seq![k] =~= t2_args(a).push(k));
        lemma_rta_push(t2_args(a), k);
    }
}

/// and stage 3
pub proof fn lemma_rt3(c: Seq<Chunk>)
    ensures rt(t_list(c)) == r_list(c),
    decreases c,
{
    if c.len() == 0 {
        lemma_t_list_empty(c);
        lemma_r_list_empty(c);
        lemma_rt_empty(t_list(c));
    } else {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_t_list_push(a, x);
        lemma_r_list_push(a, x);
        def_r_chunk(x);
        lemma_rt3(a);
        lemma_rt3_variant(x.variant);
        lemma_rt_add(t_list(a), t_variant(x.variant));
    }
}

pub proof fn lemma_rt3_variant(v: ChunkVariant)
    ensures rt(t_variant(v)) == r_variant(v),
    decreases v,
{
    def_t_variant(v);
    def_r_variant(v);
    match v {
        ChunkVariant::Text(s) => {
            lemma_rt_chs(s@);
        },
        ChunkVariant::ParagraphBreak(s) => {
            lemma_rt_chs(s@);
        },
        ChunkVariant::MathsBlock(m) => {
            lemma_rt3(m.content@);
            def_t_maths(m);
            def_r_maths(m);
            lemma_rt_tm(m.variant, m.raw_type);
            lemma_rt_add(tm_open(m.variant, m.raw_type) + t_list(m.content@), tm_close(m.variant, m.raw_type));
            lemma_rt_add(tm_open(m.variant, m.raw_type), t_list(m.content@));
        },
        ChunkVariant::Command(c) => {
            lemma_rt3_args(c.arguments@);
            def_r_command(c);
            lemma_rt_one(Tk::Cmd(c.label@, t_args(c.arguments@)));
        },
        ChunkVariant::Scope(s) => {
            lemma_rt3(s.chunks@);
            def_r_scope(s);
            lemma_rt_one(Tk::Grp(sv_2(s.variant), t_list(s.chunks@)));
        },
        ChunkVariant::Environment(e) => {
            lemma_rt3_args(e.arguments@);
            lemma_rt3(e.content@);
            def_r_env(e);
            lemma_rt_one(Tk::Env(e.prec_begin@, e.label@, t_args(e.arguments@), t_list(e.content@), e.prec_end@));
        },
    }
}

pub proof fn lemma_rt3_args(c: Seq<(String, Scope)>)
    ensures rta(t_args(c)) == r_args(c),
    decreases c,
{
    if c.len() == 0 {
        lemma_t_args_empty(c);
        lemma_r_args_empty(c);
    } else {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_t_args_push(a, x);
        lemma_r_args_push(a, x);
        def_r_scope(x.1);
        lemma_rt3_args(a);
        lemma_rt3(x.1.chunks@);
        let k = TkArg { pre: x.0@, var: sv_2(x.1.variant), body: t_list(x.1.chunks@) };
        assert(t_args(a) + seq![k] =~= t_args(a).push(k));
        lemma_rta_push(t_args(a), k);
    }
}

pub proof fn lemma_rt_tm(v: MathsVariant, t: MathsType)
    ensures
        rt(tm_open(v, t)) == m_open(v, t),
        rt(tm_close(v, t)) == m_close(v, t),
{
    let e = Seq::<TkArg>::empty();
    let z = Seq::<char>::empty();
    assert(rta(e) == z);
    lemma_rt_one(Tk::Cmd(seq!['('], e));
    lemma_rt_one(Tk::Cmd(seq![')'], e));
    lemma_rt_one(Tk::Cmd(seq!['['], e));
    lemma_rt_one(Tk::Cmd(seq![']'], e));
    lemma_rt_one(Tk::Ch('$'));
    assert(seq!['\\'] + seq!['('] + z =~= seq!['\\', '(']);
    assert(seq!['\\'] + seq![')'] + z =~= seq!['\\', ')']);
    assert(seq!['\\'] + seq!['['] + z =~= seq!['\\', '[']);
    assert(seq!['\\'] + seq![']'] + z =~= seq!['\\', ']']);
    assert(seq![Tk::Ch('$'), Tk::Ch('$')] =~= seq![Tk::Ch('$')] + seq![Tk::Ch('$')]);
    lemma_rt_add(seq![Tk::Ch('$')], seq![Tk::Ch('$')]);
    assert(seq!['$'] + seq!['$'] =~= seq!['$', '$']);
}

// ---- brackets of maths in a list: -1 from where one closes that is not open, else how many are open

pub open spec fn is_mo(t: MathsType, k: Tk) -> bool {
    match k {
        Tk::Cmd(l, a) => match t {
            MathsType::Inline => l == seq!['('],
            MathsType::Outline => l == seq!['['],
        },
        _ => false,
    }
}

pub open spec fn is_mc(t: MathsType, k: Tk) -> bool {
    match k {
        Tk::Cmd(l, a) => match t {
            MathsType::Inline => l == seq![')'],
            MathsType::Outline => l == seq![']'],
        },
        _ => false,
    }
}

pub closed spec fn run(t: MathsType, s: Seq<Tk>) -> int
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else {
        run1(t, run(t, s.drop_last()), s.last())
    }
}

pub open spec fn run1(t: MathsType, p: int, k: Tk) -> int {
    if p < 0 {
        p
    } else if is_mo(t, k) {
        p + 1
    } else if is_mc(t, k) {
        p - 1
    } else {
        p
    }
}

pub proof fn lemma_run_push(t: MathsType, s: Seq<Tk>, k: Tk)
    ensures run(t, s.push(k)) == run1(t, run(t, s), k),
{
    assert(s.push(k).drop_last() =~= s);
}

pub proof fn lemma_run_chs(t: MathsType, s: Seq<Tk>, x: Seq<char>)
    ensures run(t, s + chs(x)) == run(t, s),
    decreases x.len(),
{
    if x.len() == 0 {
        lemma_chs_empty(x);
        assert(s + chs(x) =~= s);
    } else {
        let a = x.drop_last();
        assert(x =~= a.push(x.last()));
        lemma_chs_push(a, x.last());
        assert(s + chs(x) =~= (s + chs(a)).push(Tk::Ch(x.last())));
        lemma_run_chs(t, s, a);
        lemma_run_push(t, s + chs(a), Tk::Ch(x.last()));
    }
}

// ---- no dollars

pub closed spec fn no_d(s: Seq<char>) -> bool {
    !s.contains('$')
}

pub closed spec fn nod(s: Seq<Tk>) -> bool {
    !s.contains(Tk::Ch('$'))
}

pub proof fn lemma_no_d_push(s: Seq<char>, c: char)
    ensures no_d(s.push(c)) == (no_d(s) && c != '$'),
{
    if no_d(s) && c != '$' {
    } else if c == '$' {
        assert(s.push(c)[s.len() as int] == '$');
    } else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == '$';
        assert(s.push(c)[i] == '$');
    }
}

pub proof fn lemma_no_d_add(a: Seq<char>, b: Seq<char>)
    ensures no_d(a + b) == (no_d(a) && no_d(b)),
{
    let s = a + b;
    if !no_d(a) {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == '$';
        assert(s[i] == '$');
    }
    if !no_d(b) {
        let i = choose|i: int| 0 <= i < b.len() && b[i] == '$';
        assert(s[a.len() + i] == '$');
    }
    if no_d(a) && no_d(b) {
        assert forall|i: int| 0 <= i < s.len() implies s[i] != '$' by {
            if i < a.len() {
                assert(a[i] == s[i]);
            } else {
                assert(b[i - a.len()] == s[i]);
            }
        }
    }
}

pub proof fn lemma_no_d_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures no_d(s),
{
}

pub proof fn lemma_nod_empty(s: Seq<Tk>)
    requires s.len() == 0,
    ensures nod(s),
{
}

pub proof fn lemma_nod_push(s: Seq<Tk>, k: Tk)
    ensures nod(s.push(k)) == (nod(s) && k != Tk::Ch('$')),
{
    if nod(s) && k != Tk::Ch('$') {
    } else if k == Tk::Ch('$') {
        assert(s.push(k)[s.len() as int] == Tk::Ch('$'));
    } else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == Tk::Ch('$');
        assert(s.push(k)[i] == Tk::Ch('$'));
    }
}

pub proof fn lemma_nod_chs(s: Seq<Tk>, x: Seq<char>)
    ensures nod(s + chs(x)) == (nod(s) && no_d(x)),
    decreases x.len(),
{
    if x.len() == 0 {
        lemma_chs_empty(x);
        lemma_no_d_empty(x);
        assert(s + chs(x) =~= s);
    } else {
        let a = x.drop_last();
        assert(x =~= a.push(x.last()));
        lemma_chs_push(a, x.last());
        assert(s + chs(x) =~= (s + chs(a)).push(Tk::Ch(x.last())));
        lemma_nod_chs(s, a);
        lemma_nod_push(s + chs(a), Tk::Ch(x.last()));
        lemma_no_d_push(a, x.last());
    }
}

// ---- taking maths out of a list

pub open spec fn dol(m: MathsMode) -> bool {
    m == MathsMode::SingleDollar(MathsVariant::Dollars) || m == MathsMode::DoubleDollar(MathsVariant::Dollars) || m == MathsMode::DoubleClosing
}

pub open spec fn brc(m: MathsMode) -> bool {
    m == MathsMode::SingleDollar(MathsVariant::Brackets) || m == MathsMode::DoubleDollar(MathsVariant::Brackets)
}

pub open spec fn mv(m: MathsMode) -> MathsVariant {
    if brc(m) {
        MathsVariant::Brackets
    } else {
        MathsVariant::Dollars
    }
}

pub open spec fn mt(m: MathsMode) -> MathsType {
    match m {
        MathsMode::SingleDollar(_) => MathsType::Inline,
        _ => MathsType::Outline,
    }
}

/// what opened the maths
pub open spec fn mk(m: MathsMode) -> Seq<Tk> {
    if m == MathsMode::None {
        Seq::empty()
    } else {
        tm_open(mv(m), mt(m))
    }
}

/// and the part of its end already read
pub open spec fn mcl(m: MathsMode) -> Seq<Tk> {
    if m == MathsMode::DoubleClosing {
        seq![Tk::Ch('$')]
    } else {
        Seq::empty()
    }
}

/// after the pieces `d`: `out` is done, `buf` and then the text `tb` are in the maths of mode `m` that starts in
/// line `bl` with `depth` brackets open; outside maths `tb` is the text not yet put down
pub open spec fn mi(d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool) -> bool {
    &&& d == t_list(out) + mk(m) + t2_list(buf) + chs(tb) + mcl(m)
    &&& dn_list(out) && mn_list(out)
    &&& dnf2(buf, bl) && mo_list(buf) && no_d(tb)
    &&& m == MathsMode::None ==> buf.len() == 0
    &&& m != MathsMode::None ==> bl == 1 + nl(r_list(out))
    &&& dol(m) ==> nod(t2_list(buf)) && (buf.len() > 0 ==> t2_list(buf).len() > 0)
    &&& brc(m) ==> depth >= 1 && run(mt(m), t2_list(buf)) == depth - 1 && tb.len() == 0
    &&& w ==> pre_w_list(out) && w2_list(buf) && w_text(tb)
}

pub proof fn lemma_mi_start(buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, w: bool)
    requires buf.len() == 0, out.len() == 0,
    ensures mi(Seq::empty(), MathsMode::None, 0, buf, bl, out, Seq::empty(), w),
{
    broadcast use group_ast3, crate::ast2_spec::group_ast2, crate::ast1_spec::lemma_w_text_empty;
    lemma_no_d_empty(Seq::empty());
    assert(t_list(out) + mk(MathsMode::None) + t2_list(buf) + chs(Seq::empty()) + mcl(MathsMode::None) =~= Seq::<Tk>::empty());
}

/// its text
pub proof fn lemma_mi_text(d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool)
    requires mi(d, m, depth, buf, bl, out, tb, w),
    ensures
        nl(rt(d)) == nl(r_list(out)) + nl(r2_list(buf)) + nl(tb),
        rt(d).len() >= r_list(out).len() + r2_list(buf).len() + tb.len() + (if m == MathsMode::None { 0int } else { 1 }),
{
    broadcast use super::group_seq;
    lemma_rt_add(t_list(out) + mk(m) + t2_list(buf) + chs(tb), mcl(m));
    lemma_rt_add(t_list(out) + mk(m) + t2_list(buf), chs(tb));
    lemma_rt_add(t_list(out) + mk(m), t2_list(buf));
    lemma_rt_add(t_list(out), mk(m));
    lemma_rt3(out);
    lemma_rt2(buf);
    lemma_rt_chs(tb);
    lemma_rt_tm(mv(m), mt(m));
    lemma_nl_marks(mv(m), mt(m));
    lemma_rt_empty(Seq::empty());
    lemma_rt_one(Tk::Ch('$'));
    assert(seq!['$'] =~= Seq::empty().push('$'));
    assert(nl(Seq::<char>::empty()) == 0);
    assert(nl(rt(mk(m))) == 0);
    assert(nl(rt(mcl(m))) == 0);
}

pub proof fn lemma_mi_char(d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool, c: char)
    requires
        mi(d, m, depth, buf, bl, out, tb, w),
        c != '$',
        !brc(m),
        m != MathsMode::DoubleClosing,
        w ==> w_text(seq![c]),
    ensures mi(d.push(Tk::Ch(c)), m, depth, buf, bl, out, tb.push(c), w),
{
    lemma_chs_push(tb, c);
    lemma_no_d_push(tb, c);
    assert(seq![c] =~= Seq::empty().push(c));
    crate::ast1_spec::lemma_w_text_push(Seq::empty(), c);
    crate::ast1_spec::lemma_w_text_push(tb, c);
    assert(d.push(Tk::Ch(c)) =~= t_list(out) + mk(m) + t2_list(buf) + chs(tb.push(c)) + mcl(m));
}

pub open spec fn flushed3(out: Seq<Chunk>, tbl: int, tb: Seq<char>, out2: Seq<Chunk>) -> bool {
    if tb.len() > 0 {
        out2.len() == out.len() + 1 && out2.drop_last() =~= out && is_text(out2.last(), tbl, tb)
    } else {
        out2 == out
    }
}

pub open spec fn flushed2(buf: Seq<ast2::Chunk>, tbl: int, tb: Seq<char>, buf2: Seq<ast2::Chunk>) -> bool {
    if tb.len() > 0 {
        buf2.len() == buf.len() + 1 && buf2.drop_last() =~= buf && buf2.last().line_no == tbl && buf2.last().variant is Text && buf2.last().variant->Text_0@ == tb
    } else {
        buf2 == buf
    }
}

/// the text is put down
pub proof fn lemma_mi_flush(d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool, tbl: int, buf2: Seq<ast2::Chunk>, out2: Seq<Chunk>)
    requires
        mi(d, m, depth, buf, bl, out, tb, w),
        tbl + nl(tb) == 1 + nl(rt(d)),
        if m == MathsMode::None {
            flushed3(out, tbl, tb, out2) && buf2 == buf
        } else {
            flushed2(buf, tbl, tb, buf2) && out2 == out
        },
    ensures
        mi(d, m, depth, buf2, bl, out2, Seq::empty(), w),
        m != MathsMode::None && tb.len() > 0 ==> buf2.len() > 0 && t2_list(buf2).len() > 0,
{
    broadcast use super::group_seq, crate::ast1_spec::lemma_w_text_empty;
    lemma_mi_text(d, m, depth, buf, bl, out, tb, w);
    let e = Seq::<char>::empty();
    lemma_chs_empty(e);
    lemma_no_d_empty(e);
    assert(nl(e) == 0);
    if tb.len() > 0 {
        if m == MathsMode::None {
            let x = out2.last();
            assert(out2 =~= out.push(x));
            lemma_t_list_push(out, x);
            lemma_dn_list_push(out, x);
            lemma_mn_list_push(out, x);
            lemma_pre_w_list_push(out, x);
            def_t_variant(x.variant);
            def_dn_variant(x.variant);
            def_mn_variant(x.variant);
            lemma_t2_list_empty(buf);
            crate::ast2_spec::lemma_r_list_empty(buf);
            assert(d =~= t_list(out2) + mk(m) + t2_list(buf2) + chs(e) + mcl(m));
        } else {
            let x = buf2.last();
            assert(buf2 =~= buf.push(x));
            lemma_t2_list_push(buf, x);
            lemma_dnf2_push(buf, x, bl);
            lemma_mo_list_push(buf, x);
            crate::ast2_spec::lemma_w_list_push(buf, x);
            def_t2_variant(x.variant);
            def_mo_variant(x.variant);
            crate::ast2_spec::def_dn_variant(x.variant);
            crate::ast2_spec::def_w_variant(x.variant);
            lemma_nod_chs(t2_list(buf), tb);
            lemma_rt_chs(tb);
            assert(chs(tb).len() > 0) by {
                lemma_chs_push(tb.drop_last(), tb.last());
                assert(tb =~= tb.drop_last().push(tb.last()));
            }
            assert(d =~= t_list(out2) + mk(m) + t2_list(buf2) + chs(e) + mcl(m));
        }
    } else {
        assert(tb =~= e);
    }
}

/// maths begins
pub proof fn lemma_mi_open(d: Seq<Tk>, bl0: int, depth0: int, buf: Seq<ast2::Chunk>, out: Seq<Chunk>, w: bool, m: MathsMode, bl: int)
    requires
        mi(d, MathsMode::None, depth0, buf, bl0, out, Seq::empty(), w),
        bl == 1 + nl(rt(d)),
        m == MathsMode::SingleDollar(MathsVariant::Dollars) || brc(m),
    ensures mi(d + mk(m), m, 1, buf, bl, out, Seq::empty(), w),
{
    let e = Seq::<char>::empty();
    broadcast use super::group_seq;
    lemma_mi_text(d, MathsMode::None, depth0, buf, bl0, out, e, w);
    lemma_chs_empty(e);
    lemma_t2_list_empty(buf);
    lemma_nod_empty(t2_list(buf));
    lemma_dnf2_empty(buf, bl);
    crate::ast2_spec::lemma_r_list_empty(buf);
    assert(nl(e) == 0);
    assert(run(mt(m), t2_list(buf)) == 0);
    assert(d + mk(m) =~= t_list(out) + mk(m) + t2_list(buf) + chs(e) + mcl(m));
}

pub proof fn lemma_mi_double(d: Seq<Tk>, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool)
    requires
        mi(d, MathsMode::SingleDollar(MathsVariant::Dollars), depth, buf, bl, out, tb, w),
        buf.len() == 0,
        tb.len() == 0,
    ensures mi(d.push(Tk::Ch('$')), MathsMode::DoubleDollar(MathsVariant::Dollars), depth, buf, bl, out, tb, w),
{
    lemma_chs_empty(tb);
    lemma_t2_list_empty(buf);
    let m = MathsMode::DoubleDollar(MathsVariant::Dollars);
    assert(d.push(Tk::Ch('$')) =~= t_list(out) + mk(m) + t2_list(buf) + chs(tb) + mcl(m));
}

pub proof fn lemma_mi_closing(d: Seq<Tk>, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool)
    requires mi(d, MathsMode::DoubleDollar(MathsVariant::Dollars), depth, buf, bl, out, tb, w),
    ensures mi(d.push(Tk::Ch('$')), MathsMode::DoubleClosing, depth, buf, bl, out, tb, w),
{
    let m = MathsMode::DoubleClosing;
    assert(d.push(Tk::Ch('$')) =~= t_list(out) + mk(m) + t2_list(buf) + chs(tb) + mcl(m));
}

/// the block that maths becomes
pub open spec fn is_block(x: Chunk, m: MathsMode, buf: Seq<ast2::Chunk>, bl: int, w: bool) -> bool {
    &&& x.line_no == bl
    &&& match x.variant {
        ChunkVariant::MathsBlock(b) => {
            &&& b.variant == mv(m) && b.raw_type == mt(m)
            &&& t_list(b.content@) == t2_list(buf)
            &&& dn_list(b.content@) && mn_list(b.content@)
            &&& w ==> w_list(b.content@)
        },
        _ => false,
    }
}

/// what ends it, after what was read already
pub open spec fn mend(m: MathsMode) -> Tk {
    if m == MathsMode::SingleDollar(MathsVariant::Brackets) {
        Tk::Cmd(seq![')'], Seq::empty())
    } else if m == MathsMode::DoubleDollar(MathsVariant::Brackets) {
        Tk::Cmd(seq![']'], Seq::empty())
    } else {
        Tk::Ch('$')
    }
}

pub proof fn lemma_mi_close(d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, w: bool, x: Chunk, out2: Seq<Chunk>, buf2: Seq<ast2::Chunk>, depth2: int, bl2: int)
    requires
        mi(d, m, depth, buf, bl, out, Seq::empty(), w),
        m == MathsMode::SingleDollar(MathsVariant::Dollars) || m == MathsMode::DoubleClosing || brc(m),
        m == MathsMode::SingleDollar(MathsVariant::Dollars) ==> buf.len() > 0,
        brc(m) ==> depth == 1,
        is_block(x, m, buf, bl, w),
        out2 == out.push(x),
        buf2.len() == 0,
    ensures mi(d.push(mend(m)), MathsMode::None, depth2, buf2, bl2, out2, Seq::empty(), w),
{
    let e = Seq::<char>::empty();
    lemma_chs_empty(e);
    lemma_t2_list_empty(buf2);
    lemma_dnf2_empty(buf2, bl2);
    lemma_mo_list_empty(buf2);
    crate::ast2_spec::lemma_w_list_empty(buf2);
    lemma_t_list_push(out, x);
    lemma_dn_list_push(out, x);
    lemma_mn_list_push(out, x);
    lemma_pre_w_list_push(out, x);
    def_t_variant(x.variant);
    def_dn_variant(x.variant);
    def_mn_variant(x.variant);
    def_w_variant(x.variant);
    match x.variant {
        ChunkVariant::MathsBlock(b) => {
            def_t_maths(b);
            def_dn_maths(b);
            def_mn_maths(b);
            def_w_maths(b);
        },
        _ => {},
    }
    let n = MathsMode::None;
    assert(d.push(mend(m)) =~= t_list(out2) + mk(n) + t2_list(buf2) + chs(e) + mcl(n));
}

/// something inside maths
pub proof fn lemma_mi_buf(d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, w: bool, x: ast2::Chunk, depth2: int)
    requires
        mi(d, m, depth, buf, bl, out, Seq::empty(), w),
        m != MathsMode::None && m != MathsMode::DoubleClosing,
        x.line_no == 1 + nl(rt(d)),
        dn2_variant(x.variant) && mo_variant(x.variant),
        w ==> w2_variant(x.variant),
        dol(m) ==> !(x.variant is Text) && depth2 == depth,
        brc(m) ==> depth2 >= 1 && depth2 == depth + match x.variant {
            ast2::ChunkVariant::Command(c) => if is_mo(mt(m), Tk::Cmd(c.label@, Seq::empty())) { 1int } else if is_mc(mt(m), Tk::Cmd(c.label@, Seq::empty())) { -1int } else { 0 },
            _ => 0,
        },
    ensures mi(d + t2_variant(x.variant), m, depth2, buf.push(x), bl, out, Seq::empty(), w),
{
    let e = Seq::<char>::empty();
    broadcast use super::group_seq;
    lemma_mi_text(d, m, depth, buf, bl, out, e, w);
    lemma_chs_empty(e);
    assert(nl(e) == 0);
    lemma_t2_list_push(buf, x);
    lemma_dnf2_push(buf, x, bl);
    lemma_mo_list_push(buf, x);
    crate::ast2_spec::lemma_w_list_push(buf, x);
    def_t2_variant(x.variant);
    let a = t2_list(buf);
    match x.variant {
        ast2::ChunkVariant::Text(s) => {
            lemma_run_chs(mt(m), a, s@);
        },
        ast2::ChunkVariant::Command(c) => {
            let k = Tk::Cmd(c.label@, t2_args(c.arguments@));
            assert(a + seq![k] =~= a.push(k));
            lemma_run_push(mt(m), a, k);
            lemma_nod_push(a, k);
        },
        ast2::ChunkVariant::Scope(s) => {
            let k = Tk::Grp(s.variant, t2_list(s.chunks@));
            assert(a + seq![k] =~= a.push(k));
            lemma_run_push(mt(m), a, k);
            lemma_nod_push(a, k);
        },
        ast2::ChunkVariant::Environment(v) => {
            let k = Tk::Env(v.prec_begin@, v.label@, t2_args(v.arguments@), t2_list(v.content@), v.prec_end@);
            assert(a + seq![k] =~= a.push(k));
            lemma_run_push(mt(m), a, k);
            lemma_nod_push(a, k);
        },
    }
    assert(d + t2_variant(x.variant) =~= t_list(out) + mk(m) + t2_list(buf.push(x)) + chs(e) + mcl(m));
}

/// something outside
pub proof fn lemma_mi_out(d: Seq<Tk>, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, w: bool, t: Seq<Tk>, x: Chunk)
    requires
        mi(d, MathsMode::None, depth, buf, bl, out, Seq::empty(), w),
        x.line_no == 1 + nl(rt(d)),
        t_variant(x.variant) == t && dn_variant(x.variant) && mn_variant(x.variant),
        w ==> pre_w(x.variant),
    ensures mi(d + t, MathsMode::None, depth, buf, bl, out.push(x), Seq::empty(), w),
{
    let e = Seq::<char>::empty();
    let m = MathsMode::None;
    broadcast use super::group_seq;
    lemma_mi_text(d, m, depth, buf, bl, out, e, w);
    lemma_chs_empty(e);
    assert(nl(e) == 0);
    lemma_t2_list_empty(buf);
    crate::ast2_spec::lemma_r_list_empty(buf);
    lemma_t_list_push(out, x);
    lemma_dn_list_push(out, x);
    lemma_mn_list_push(out, x);
    lemma_pre_w_list_push(out, x);
    assert(d + t =~= t_list(out.push(x)) + mk(m) + t2_list(buf) + chs(e) + mcl(m));
}

/// a command that is not of maths
pub proof fn lemma_mi_out_command(v: ChunkVariant, c: ast2::Command)
    requires
        match v {
            ChunkVariant::Command(d) => d.label@ == c.label@ && t_args(d.arguments@) == t2_args(c.arguments@) && dn_command(d) && mn_args(d.arguments@),
            _ => false,
        },
        !delim(c.label@),
    ensures
        t_variant(v) == t2_variant(ast2::ChunkVariant::Command(c)),
        dn_variant(v),
        mn_variant(v),
        match v {
            ChunkVariant::Command(d) => w_command(d) ==> pre_w(v),
            _ => false,
        },
{
    def_t_variant(v);
    def_t2_variant(ast2::ChunkVariant::Command(c));
    def_dn_variant(v);
    def_mn_variant(v);
    def_w_variant(v);
    match v {
        ChunkVariant::Command(d) => {
            def_mn_command(d);
        },
        _ => {},
    }
}

/// no more brackets open than there are characters
pub proof fn lemma_run_le(t: MathsType, s: Seq<Tk>)
    ensures run(t, s) <= rt(s).len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let k = s.last();
        lemma_run_le(t, s.drop_last());
        assert(s =~= s.drop_last().push(k));
        lemma_rt_push(s.drop_last(), k);
        assert(run(t, s) == run1(t, run(t, s.drop_last()), k));
        if is_mo(t, k) {
            assert(rt1(k).len() >= 1);
        }
    }
}

// ---- the content of maths, numbered from 1

/// `b` is `a` moved up by `d` lines
pub open spec fn moved(a: Seq<ast2::Chunk>, b: Seq<ast2::Chunk>, d: int) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).variant == a[i].variant && b[i].line_no + d == a[i].line_no
}

pub proof fn lemma_moved(a: Seq<ast2::Chunk>, b: Seq<ast2::Chunk>, d: int, k: int)
    requires moved(a, b, d),
    ensures
        r2_list(b) == r2_list(a),
        t2_list(b) == t2_list(a),
        mo_list(b) == mo_list(a),
        w2_list(b) == w2_list(a),
        dnf2(b, k - d) == dnf2(a, k),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a =~= b);
        lemma_dnf2_empty(a, k);
        lemma_dnf2_empty(b, k - d);
    } else {
        let a0 = a.drop_last();
        let b0 = b.drop_last();
        let x = a.last();
        let y = b.last();
        assert(y.variant == x.variant && y.line_no + d == x.line_no) by {
            assert(b[a.len() - 1].variant == a[a.len() - 1].variant);
        }
        assert(a =~= a0.push(x));
        assert(b =~= b0.push(y));
        assert(moved(a0, b0, d)) by {
            assert forall|i: int| 0 <= i < a0.len() implies (#[trigger] b0[i]).variant == a0[i].variant && b0[i].line_no + d == a0[i].line_no by {
                assert(b0[i] == b[i]);
            }
        }
        lemma_moved(a0, b0, d, k);
        crate::ast2_spec::lemma_r_list_push(a0, x);
        crate::ast2_spec::lemma_r_list_push(b0, y);
        crate::ast2_spec::def_r_chunk(x);
        crate::ast2_spec::def_r_chunk(y);
        lemma_t2_list_push(a0, x);
        lemma_t2_list_push(b0, y);
        lemma_mo_list_push(a0, x);
        lemma_mo_list_push(b0, y);
        crate::ast2_spec::lemma_w_list_push(a0, x);
        crate::ast2_spec::lemma_w_list_push(b0, y);
        lemma_dnf2_push(a0, x, k);
        lemma_dnf2_push(b0, y, k - d);
    }
}

/// no chunk comes before the line of the first
pub proof fn lemma_dnf2_from(a: Seq<ast2::Chunk>, k: int)
    requires dnf2(a, k),
    ensures forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).line_no >= k,
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_dnf2_from(a.drop_last(), k);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).line_no >= k by {
            if i < a.len() - 1 {
                assert(a.drop_last()[i] == a[i]);
            }
        }
    }
}

/// the delimiters as they are named in the code
pub proof fn lemma_m_names()
    ensures
        "("@ == seq!['('],
        ")"@ == seq![')'],
        "["@ == seq!['['],
        "]"@ == seq![']'],
        seq!['('] != seq![')'] && seq!['('] != seq![']'] && seq!['('] != seq!['['],
        seq!['['] != seq![')'] && seq!['['] != seq![']'] && seq![')'] != seq![']'],
{
    assert(seq!['('][0] != seq![')'][0] && seq!['('][0] != seq![']'][0] && seq!['('][0] != seq!['['][0]);
    assert(seq!['['][0] != seq![')'][0] && seq!['['][0] != seq![']'][0] && seq![')'][0] != seq![']'][0]);
    reveal_strlit("(");
    reveal_strlit(")");
    reveal_strlit("[");
    reveal_strlit("]");
    assert("("@ =~= seq!['(']);
    assert(")"@ =~= seq![')']);
    assert("["@ =~= seq!['[']);
    assert("]"@ =~= seq![']']);
}

/// the lines of what is numbered are not above those of the text
pub broadcast proof fn lemma_dn_fit(c: Seq<Chunk>)
    requires #[trigger] dn_list(c),
    ensures forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).line_no + nl(r_chunk(c[i])) <= 1 + nl(r_list(c)),
    decreases c.len(),
{
    broadcast use super::lemma_nl_add;
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_dn_list_push(a, x);
        lemma_r_list_push(a, x);
        lemma_dn_fit(a);
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).line_no + nl(r_chunk(c[i])) <= 1 + nl(r_list(c)) by {
            if i < a.len() {
                assert(a[i] == c[i]);
            }
        }
    }
}

/// what is well-made may be split once more
pub broadcast proof fn lemma_w_pre(c: Seq<Chunk>)
    requires #[trigger] w_list(c),
    ensures pre_w_list(c),
    decreases c.len(),
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_list_push(a, x);
        lemma_pre_w_list_push(a, x);
        def_w_variant(x.variant);
        lemma_w_pre(a);
    } else {
        lemma_pre_w_list_empty(c);
    }
}

/// splitting once more
pub broadcast group group_para {
    lemma_para,
    lemma_dn_fit,
    lemma_w_pre,
}

/// the lines of the document in its sections
pub open spec fn dn_doc(d: Document) -> bool {
    dn_list(d.preamable@) && dn_args(d.body_args@) && dn_list(d.body@) && dn_list(d.trailing@)
}

/// its pieces
pub closed spec fn t_doc(d: Document) -> Seq<Tk> {
    t_list(d.preamable@) + seq![Tk::Env(d.body_begin_prec@, "document"@, t_args(d.body_args@), t_list(d.body@), d.body_end_prec@)] + t_list(d.trailing@)
}

pub broadcast proof fn lemma_t_doc(d: Document)
    ensures
        #[trigger] t_doc(d) == t_list(d.preamable@) + seq![Tk::Env(d.body_begin_prec@, "document"@, t_args(d.body_args@), t_list(d.body@), d.body_end_prec@)] + t_list(d.trailing@),
{
}

// ---- the document environment, the class and the options

/// the document environment
pub open spec fn is_doc(x: ast2::Chunk) -> bool {
    x.variant is Environment && x.variant->Environment_0.label@ == "document"@
}

/// the command that names the class
pub open spec fn is_dc(x: ast2::Chunk) -> bool {
    x.variant is Command && x.variant->Command_0.label@ == "documentclass"@
}

/// the preamble: what comes before the first document environment
pub closed spec fn pre_of(l: Seq<ast2::Chunk>) -> Seq<ast2::Chunk>
    decreases l.len(),
{
    if l.len() == 0 {
        l
    } else {
        let p = pre_of(l.drop_last());
        if p.len() + 1 < l.len() || is_doc(l.last()) {
            p
        } else {
            l
        }
    }
}

/// there is a document environment
pub open spec fn has_doc(l: Seq<ast2::Chunk>) -> bool {
    pre_of(l).len() < l.len()
}

pub proof fn lemma_pre_of_empty(l: Seq<ast2::Chunk>)
    requires l.len() == 0,
    ensures pre_of(l) == l,
{
}

pub proof fn lemma_pre_of_push(l: Seq<ast2::Chunk>, x: ast2::Chunk)
    ensures pre_of(l.push(x)) == (if pre_of(l).len() < l.len() || is_doc(x) { pre_of(l) } else { l.push(x) }),
    pre_of(l).len() <= l.len(),
    decreases l.len(),
{
    assert(l.push(x).drop_last() =~= l);
    if l.len() > 0 {
        assert(l =~= l.drop_last().push(l.last()));
        lemma_pre_of_push(l.drop_last(), l.last());
    }
}

/// the arguments of the class commands, in order
pub closed spec fn dargs(p: Seq<ast2::Chunk>) -> Seq<(String, ast2::Scope)>
    decreases p.len(),
{
    if p.len() == 0 {
        Seq::empty()
    } else if is_dc(p.last()) {
        dargs(p.drop_last()) + p.last().variant->Command_0.arguments@
    } else {
        dargs(p.drop_last())
    }
}

pub proof fn lemma_dargs_push(p: Seq<ast2::Chunk>, x: ast2::Chunk)
    ensures dargs(p.push(x)) == (if is_dc(x) { dargs(p) + x.variant->Command_0.arguments@ } else { dargs(p) }),
{
    assert(p.push(x).drop_last() =~= p);
}

/// how many of them are curly
pub closed spec fn dcurly(a: Seq<(String, ast2::Scope)>) -> int
    decreases a.len(),
{
    if a.len() == 0 {
        0
    } else {
        dcurly(a.drop_last()) + if a.last().1.variant is Curly { 1int } else { 0int }
    }
}

/// the text of the curly one
pub closed spec fn dclass(a: Seq<(String, ast2::Scope)>) -> Option<Seq<char>>
    decreases a.len(),
{
    if a.len() == 0 {
        None
    } else if a.last().1.variant is Curly {
        Some(r2_list(a.last().1.chunks@))
    } else {
        dclass(a.drop_last())
    }
}

/// the pieces of the others between commas
pub closed spec fn dopts(a: Seq<(String, ast2::Scope)>) -> Seq<Seq<char>>
    decreases a.len(),
{
    if a.len() == 0 {
        Seq::empty()
    } else if a.last().1.variant is Curly {
        dopts(a.drop_last())
    } else {
        dopts(a.drop_last()) + split_at(r2_list(a.last().1.chunks@), ',')
    }
}

/// no whitespace at either end
pub open spec fn trim(s: Seq<char>) -> bool {
    s.len() > 0 ==> !ws(s[0]) && !ws(s.last())
}

pub type Opt = (String, String, Option<(String, String, String)>, String);

/// the option is the piece, taken apart
pub closed spec fn opt_is(p: Seq<char>, o: Opt) -> bool {
    all_ws(o.0@) && trim(o.1@) && all_ws(o.3@) && match o.2 {
        None => p == o.0@ + o.1@ + o.3@ && !o.1@.contains('='),
        Some((a, b, v)) => all_ws(a@) && all_ws(b@) && trim(v@) && !(o.1@ + a@).contains('=')
            && p == o.0@ + o.1@ + a@ + seq!['='] + b@ + v@ + o.3@,
    }
}

pub closed spec fn opts_are(p: Seq<Seq<char>>, o: Seq<Opt>) -> bool {
    p.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> opt_is(p[i], #[trigger] o[i])
}

pub proof fn lemma_opts_push(p: Seq<Seq<char>>, o: Seq<Opt>, q: Seq<char>, x: Opt)
    requires
        opts_are(p, o),
        opt_is(q, x),
    ensures opts_are(p.push(q), o.push(x)),
{
    assert forall|i: int| 0 <= i < o.push(x).len() implies opt_is(p.push(q)[i], #[trigger] o.push(x)[i]) by {
        if i < o.len() {
            assert(o.push(x)[i] == o[i]);
        }
    }
}

pub open spec fn otext(s: Option<String>) -> Option<Seq<char>> {
    match s {
        None => None,
        Some(t) => Some(t@),
    }
}

/// class and options are what the arguments say
pub closed spec fn dca(a: Seq<(String, ast2::Scope)>, c: Option<String>, o: Seq<Opt>) -> bool {
    otext(c) == dclass(a) && dcurly(a) == (if c is Some { 1int } else { 0int }) && opts_are(dopts(a), o)
}

pub proof fn lemma_dca_empty(p: Seq<ast2::Chunk>, c: Option<String>, o: Seq<Opt>)
    requires p.len() == 0, c is None, o.len() == 0,
    ensures dca(dargs(p), c, o),
{
}

pub proof fn lemma_dca_curly(a: Seq<(String, ast2::Scope)>, c: Option<String>, o: Seq<Opt>, x: (String, ast2::Scope), d: Option<String>)
    requires
        dca(a, c, o),
        c is None,
        x.1.variant is Curly,
        d is Some,
        d->Some_0@ == r2_list(x.1.chunks@),
    ensures dca(a.push(x), d, o),
{
    assert(a.push(x).drop_last() =~= a);
}

/// the options of an argument, some of them
pub closed spec fn dco(o: Seq<Opt>, p: Seq<Seq<char>>, q: Seq<Opt>) -> bool {
    o.len() <= q.len() && q.take(o.len() as int) == o && opts_are(p, q.skip(o.len() as int))
}

pub proof fn lemma_dco_empty(o: Seq<Opt>)
    ensures dco(o, Seq::empty(), o),
{
    assert(o.take(o.len() as int) =~= o);
    assert(o.skip(o.len() as int) =~= Seq::empty());
}

pub proof fn lemma_dco_push(o: Seq<Opt>, p: Seq<Seq<char>>, q: Seq<Opt>, t: Seq<char>, x: Opt)
    requires
        dco(o, p, q),
        opt_is(t, x),
    ensures dco(o, p.push(t), q.push(x)),
{
    lemma_opts_push(p, q.skip(o.len() as int), t, x);
    assert(q.push(x).skip(o.len() as int) =~= q.skip(o.len() as int).push(x));
    assert(q.push(x).take(o.len() as int) =~= q.take(o.len() as int));
}

pub proof fn lemma_dca_opts(a: Seq<(String, ast2::Scope)>, c: Option<String>, o: Seq<Opt>, x: (String, ast2::Scope), q: Seq<Opt>)
    requires
        dca(a, c, o),
        !(x.1.variant is Curly),
        dco(o, split_at(r2_list(x.1.chunks@), ','), q),
    ensures dca(a.push(x), c, q),
{
    assert(a.push(x).drop_last() =~= a);
    let p = dopts(a);
    let s = split_at(r2_list(x.1.chunks@), ',');
    assert forall|i: int| 0 <= i < q.len() implies opt_is((p + s)[i], #[trigger] q[i]) by {
        if i < o.len() {
            assert(q.take(o.len() as int)[i] == q[i]);
        } else {
            assert(q.skip(o.len() as int)[i - o.len()] == q[i]);
        }
    }
    assert(q.len() == o.len() + q.skip(o.len() as int).len());
}

/// an option without a value
pub proof fn lemma_opt_flag(t: Seq<char>, x: Opt)
    requires
        all_ws(x.0@), trim(x.1@), all_ws(x.3@), x.2 is None, !x.1@.contains('='),
        x.0@ + x.1@ + x.3@ == t,
    ensures opt_is(t, x),
{
}

/// and with one
pub proof fn lemma_opt_pair(t: Seq<char>, x: Opt, arg: Seq<char>, k: Seq<char>, v: Seq<char>)
    requires
        all_ws(x.0@), trim(x.1@), all_ws(x.3@), x.2 is Some,
        all_ws(x.2->Some_0.0@), all_ws(x.2->Some_0.1@), trim(x.2->Some_0.2@),
        x.1@ + x.2->Some_0.0@ == k,
        x.2->Some_0.1@ + x.2->Some_0.2@ == v,
        !k.contains('='),
        arg == k + seq!['='] + v,
        x.0@ + arg + x.3@ == t,
    ensures opt_is(t, x),
{
    assert(t =~= x.0@ + x.1@ + x.2->Some_0.0@ + seq!['='] + x.2->Some_0.1@ + x.2->Some_0.2@ + x.3@);
}

// ---- what was parsed has no delimiter with arguments

pub broadcast proof fn lemma_w_mo(c: Seq<ast2::Chunk>)
    requires #[trigger] w2_list(c),
    ensures mo_list(c),
    decreases c,
{
    if c.len() == 0 {
        lemma_mo_list_empty(c);
    } else {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        crate::ast2_spec::lemma_w_list_push(a, x);
        lemma_mo_list_push(a, x);
        lemma_w_mo(a);
        lemma_w_mo_variant(x.variant);
    }
}

pub proof fn lemma_w_mo_variant(v: ast2::ChunkVariant)
    requires w2_variant(v),
    ensures mo_variant(v),
    decreases v,
{
    def_mo_variant(v);
    crate::ast2_spec::def_w_variant(v);
    match v {
        ast2::ChunkVariant::Text(s) => {},
        ast2::ChunkVariant::Command(c) => {
            crate::ast2_spec::def_w_command(c);
            def_mo_command(c);
            lemma_w_mo_args(c.arguments@);
            if delim(c.label@) {
                crate::ast1_spec::lemma_special_label(c.label@);
            }
        },
        ast2::ChunkVariant::Scope(s) => {
            crate::ast2_spec::def_w_scope(s);
            def_mo_scope(s);
            lemma_w_mo(s.chunks@);
        },
        ast2::ChunkVariant::Environment(e) => {
            crate::ast2_spec::def_w_env(e);
            def_mo_env(e);
            lemma_w_mo(e.content@);
            lemma_w_mo_args(e.arguments@);
        },
    }
}

pub proof fn lemma_w_mo_args(c: Seq<(String, ast2::Scope)>)
    requires w2_args(c),
    ensures mo_args(c),
    decreases c,
{
    if c.len() == 0 {
        lemma_mo_args_empty(c);
    } else {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        crate::ast2_spec::lemma_w_args_push(a, x);
        lemma_mo_args_push(a, x);
        lemma_w_mo_args(a);
        crate::ast2_spec::def_w_scope(x.1);
        def_mo_scope(x.1);
        lemma_w_mo(x.1.chunks@);
    }
}

/// what the stage 2 parser makes of a source
pub open spec fn from_2(s: Seq<char>, d: ast2::Document) -> bool {
    &&& r2_list(d.0@) == strip(s) && crate::ast2_spec::nbe_list(d.0@) && dn2_list(d.0@) && w2_list(d.0@)
    &&& p_doc(s) is Ok && crate::ast2_spec::f_list(d.0@) == crate::ast2_spec::nf_list(p_doc(s)->Ok_0)
}

/// what stage 3 makes of that
pub open spec fn made_of(d: ast2::Document, r: Document) -> bool {
    &&& has_doc(d.0@) ==> r_doc(r) == r2_list(d.0@) && t_doc(r) == t2_list(d.0@)
    &&& dca(dargs(pre_of(d.0@)), r.documentclass, r.documentoptions@)
}

/// the sections of the document
pub open spec fn w_doc(d: Document) -> bool {
    w_list(d.preamable@) && w_args(d.body_args@) && w_list(d.body@) && w_list(d.trailing@)
}

pub open spec fn mn_doc(d: Document) -> bool {
    mn_list(d.preamable@) && mn_args(d.body_args@) && mn_list(d.body@) && mn_list(d.trailing@)
}

// ---- which fault of maths comes first, and where

/// what is being read: the mode, the brackets open, and the piece that began it
pub ghost struct MS {
    pub m: MathsMode,
    pub depth: int,
    pub open: int,
}

pub open spec fn ms_none() -> MS {
    MS { m: MathsMode::None, depth: 0, open: 0 }
}

/// the maths ends
pub open spec fn e3_close(opened: int, maths: Option<PErr>) -> Result<MS, PErr> {
    match maths {
        None => Ok(ms_none()),
        Some(p) => Err(PErr { line: p.line + opened - 1, kind: p.kind }),
    }
}

/// piece `i`, which stands in line `at`: the maths being read began in line `opened`; what is wrong within the
/// piece, and within the maths it ends
pub open spec fn e3_step(st: MS, k: Tk, i: int, at: int, opened: int, empty: bool, inner: Option<PErr>, maths: Option<PErr>) -> Result<MS, PErr> {
    if st.m == MathsMode::None {
        if k == Tk::Ch('$') {
            Ok(MS { m: MathsMode::SingleDollar(MathsVariant::Dollars), depth: 0, open: i })
        } else if is_mo(MathsType::Inline, k) {
            Ok(MS { m: MathsMode::SingleDollar(MathsVariant::Brackets), depth: 1, open: i })
        } else if is_mo(MathsType::Outline, k) {
            Ok(MS { m: MathsMode::DoubleDollar(MathsVariant::Brackets), depth: 1, open: i })
        } else if is_mc(MathsType::Inline, k) || is_mc(MathsType::Outline, k) {
            Err(PErr { line: at, kind: EKind::UnexpectedMathsEnd })
        } else if inner is Some {
            Err(PErr { line: inner->Some_0.line + at - 1, kind: inner->Some_0.kind })
        } else {
            Ok(st)
        }
    } else if brc(st.m) {
        if is_mo(mt(st.m), k) {
            Ok(MS { m: st.m, depth: st.depth + 1, open: st.open })
        } else if !is_mc(mt(st.m), k) {
            Ok(st)
        } else if st.depth == 1 {
            e3_close(opened, maths)
        } else {
            Ok(MS { m: st.m, depth: st.depth - 1, open: st.open })
        }
    } else if st.m == MathsMode::DoubleClosing {
        if k == Tk::Ch('$') {
            e3_close(opened, maths)
        } else {
            Err(PErr { line: opened, kind: EKind::UnclosedMaths })
        }
    } else if k != Tk::Ch('$') {
        Ok(st)
    } else if st.m == MathsMode::DoubleDollar(MathsVariant::Dollars) {
        Ok(MS { m: MathsMode::DoubleClosing, depth: st.depth, open: st.open })
    } else if empty {
        Ok(MS { m: MathsMode::DoubleDollar(MathsVariant::Dollars), depth: st.depth, open: st.open })
    } else {
        e3_close(opened, maths)
    }
}

pub closed spec fn e3_at(l: Seq<Tk>, n: nat) -> Option<PErr>
    decreases n, 0int, 0int,
{
    if rt(l).len() < n {
        e3_list(l)
    } else {
        None
    }
}

/// in arguments, lines counted from that of the first
pub closed spec fn e3_args(a: Seq<TkArg>, n: nat) -> Option<PErr>
    decreases n, 0int, a.len(),
{
    if a.len() == 0 {
        None
    } else {
        orelse(e3_args(a.drop_last(), n), off(e3_at(a.last().body, n), (nl(rta(a.drop_last())) + nl(a.last().pre)) as int))
    }
}

/// within a piece
pub closed spec fn e3_inner(k: Tk, n: nat) -> Option<PErr>
    decreases n, 1int, 0int,
{
    match k {
        Tk::Ch(c) => None,
        Tk::Grp(v, b) => e3_at(b, n),
        Tk::Cmd(l, a) => off(e3_args(a, n), nl(l) as int),
        Tk::Env(p, l, a, b, q) => orelse(
            off(e3_args(a, n), (nl(p) + nl(l)) as int),
            off(e3_at(b, n), (nl(p) + nl(l) + nl(rta(a))) as int),
        ),
    }
}

/// the pieces `d`, of a list whose text has length `n`
pub closed spec fn e3_run(d: Seq<Tk>, n: nat) -> Result<MS, PErr>
    decreases n, 2int, d.len(),
{
    if d.len() == 0 {
        Ok(ms_none())
    } else {
        let p = d.drop_last();
        match e3_run(p, n) {
            Err(e) => Err(e),
            Ok(st) => e3_step(
                st, d.last(), p.len() as int, (1 + nl(rt(p))) as int, (1 + nl(rt(p.take(st.open)))) as int,
                st.open + 1 == p.len(), e3_inner(d.last(), n),
                e3_at(p.subrange(st.open + mk(st.m).len(), p.len() - mcl(st.m).len()), n),
            ),
        }
    }
}

/// the first fault of maths in a list, if any
pub closed spec fn e3_list(l: Seq<Tk>) -> Option<PErr>
    decreases rt(l).len(), 3int, 0int,
{
    match e3_run(l, rt(l).len()) {
        Err(e) => Some(e),
        Ok(st) => if st.m == MathsMode::None {
            None
        } else {
            Some(PErr { line: (1 + nl(rt(l.take(st.open)))) as int, kind: EKind::UnclosedMaths })
        },
    }
}

/// in a command, lines counted from its first
pub open spec fn e3_cmd(l: Seq<char>, a: Seq<TkArg>) -> Option<PErr> {
    off(e3_args(a, rta(a).len()), nl(l) as int)
}

/// in an environment
pub open spec fn e3_env(p: Seq<char>, l: Seq<char>, a: Seq<TkArg>, b: Seq<Tk>) -> Option<PErr> {
    orelse(off(e3_args(a, rta(a).len()), (nl(p) + nl(l)) as int), off(e3_list(b), (nl(p) + nl(l) + nl(rta(a))) as int))
}

pub proof fn lemma_e3_args_push(a: Seq<TkArg>, x: TkArg, n: nat)
    ensures
        rt(x.body).len() < n ==> e3_args(a.push(x), n) == orelse(e3_args(a, n), off(e3_list(x.body), (nl(rta(a)) + nl(x.pre)) as int)),
{
    let b = a.push(x);
    assert(b.drop_last() =~= a);
    assert(b.last() == x);
    assert(rt(x.body).len() < n ==> e3_at(x.body, n) == e3_list(x.body));
    assert(e3_args(b, n) == orelse(e3_args(b.drop_last(), n), off(e3_at(b.last().body, n), (nl(rta(b.drop_last())) + nl(b.last().pre)) as int)));
}

pub proof fn lemma_e3_args_stop(a: Seq<TkArg>, b: Seq<TkArg>, n: nat)
    ensures e3_args(a, n) is Some ==> e3_args(a + b, n) == e3_args(a, n),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_e3_args_stop(a, b.drop_last(), n);
    }
}

/// how much is looked at does not matter
pub proof fn lemma_e3_args_n(a: Seq<TkArg>, n: nat, m: nat)
    requires rta(a).len() <= n, rta(a).len() <= m,
    ensures e3_args(a, n) == e3_args(a, m),
    decreases a.len(),
{
    if a.len() > 0 {
        let d = a.drop_last();
        let x = a.last();
        assert(a =~= d.push(x));
        lemma_rta_push(d, x);
        lemma_e3_args_n(d, n, m);
        lemma_e3_args_push(d, x, n);
        lemma_e3_args_push(d, x, m);
    }
}

/// what is known in the loop over arguments
pub proof fn lemma_e3_arg(all: Seq<(String, ast2::Scope)>, done: Seq<(String, ast2::Scope)>, rest: Seq<(String, ast2::Scope)>)
    requires
        all == done + rest,
        done.len() > 0,
    ensures ({
        let n = rta(t2_args(all)).len();
        let f = orelse(
            e3_args(t2_args(done.drop_last()), n),
            off(e3_list(t2_list(done.last().1.chunks@)), (nl(r2_args(done.drop_last())) + nl(done.last().0@)) as int),
        );
        &&& e3_args(t2_args(done), n) == f
        &&& f is Some ==> e3_args(t2_args(all), n) == f
    }),
{
    let n = rta(t2_args(all)).len();
    let d = done.drop_last();
    let x = done.last();
    assert(done =~= d.push(x));
    lemma_t2_args_add(done, rest);
    lemma_t2_args_push(d, x);
    let k = TkArg { pre: x.0@, var: x.1.variant, body: t2_list(x.1.chunks@) };
    assert(t2_args(d) + seq![k] =~= t2_args(d).push(k));
    lemma_rta_push(t2_args(d), k);
    lemma_rt2_args(d);
    lemma_rt2_args(done);
    lemma_rt2_args(all);
    crate::ast2_spec::lemma_r_args_add(done, rest);
    lemma_e3_args_push(t2_args(d), k, n);
    lemma_e3_args_stop(t2_args(done), t2_args(rest), n);
}

pub broadcast proof fn lemma_e3_args_empty(c: Seq<(String, ast2::Scope)>, n: nat)
    requires c.len() == 0,
    ensures #[trigger] e3_args(t2_args(c), n) is None,
{
    lemma_t2_args_empty(c);
}

proof fn lemma_e3_run_stop(a: Seq<Tk>, b: Seq<Tk>, n: nat)
    ensures e3_run(a, n) is Err ==> e3_run(a + b, n) == e3_run(a, n),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_e3_run_stop(a, b.drop_last(), n);
    }
}

pub proof fn lemma_e3_none(l: Seq<Tk>)
    requires l.len() == 0,
    ensures e3_list(l) is None,
{
}

/// a fault found is the fault of the list
pub proof fn lemma_e3_stop(all: Seq<Tk>, a: Seq<Tk>, b: Seq<Tk>)
    requires all == a + b,
    ensures e3_run(a, rt(all).len()) is Err ==> e3_list(all) == Some(e3_run(a, rt(all).len())->Err_0),
{
    lemma_e3_run_stop(a, b, rt(all).len());
}

/// the pieces `d` have been read, and no fault was found
pub closed spec fn e3i(n: nat, d: Seq<Tk>, m: MathsMode, depth: int, out: Seq<Chunk>) -> bool {
    let r = e3_run(d, n);
    &&& r is Ok
    &&& r->Ok_0.m == m
    &&& m != MathsMode::None ==> r->Ok_0.open == t_list(out).len()
    &&& brc(m) ==> r->Ok_0.depth == depth
}

pub proof fn lemma_e3_begin(n: nat, d: Seq<Tk>, depth: int, out: Seq<Chunk>)
    requires d.len() == 0,
    ensures e3i(n, d, MathsMode::None, depth, out),
{
}

pub proof fn lemma_e3_out(n: nat, d: Seq<Tk>, m: MathsMode, depth: int, out: Seq<Chunk>, out2: Seq<Chunk>)
    requires
        e3i(n, d, m, depth, out),
        m != MathsMode::None ==> out2 == out,
    ensures e3i(n, d, m, depth, out2),
{
}

/// what the next piece does
pub open spec fn e3_next(n: nat, d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, k: Tk) -> Result<MS, PErr> {
    e3_step(
        MS { m, depth, open: t_list(out).len() as int }, k, d.len() as int, (1 + nl(rt(d))) as int, bl,
        buf.len() == 0 && tb.len() == 0, e3_inner(k, n), e3_list(t2_list(buf) + chs(tb)),
    )
}

/// alike but for what does not matter
pub open spec fn ms_same(a: Result<MS, PErr>, b: Result<MS, PErr>) -> bool {
    match (a, b) {
        (Err(x), Err(y)) => x == y,
        (Ok(x), Ok(y)) => x.m == y.m && (x.m != MathsMode::None ==> x.open == y.open) && (brc(x.m) ==> x.depth == y.depth),
        _ => false,
    }
}

pub proof fn lemma_e3_next(n: nat, d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool, k: Tk)
    requires
        mi(d, m, depth, buf, bl, out, tb, w),
        e3i(n, d, m, depth, out),
        rt(d.push(k)).len() <= n,
    ensures ms_same(e3_run(d.push(k), n), e3_next(n, d, m, depth, buf, bl, out, tb, k)),
{
    assert(d.push(k).drop_last() =~= d);
    let st = e3_run(d, n)->Ok_0;
    if m != MathsMode::None {
        let b = t2_list(buf) + chs(tb);
        assert(st.open == t_list(out).len());
        assert(d.take(st.open) =~= t_list(out));
        lemma_rt3(out);
        assert(d.subrange(st.open + mk(m).len(), d.len() - mcl(m).len()) =~= b);
        lemma_mi_text(d, m, depth, buf, bl, out, tb, w);
        lemma_rt_add(t2_list(buf), chs(tb));
        lemma_rt2(buf);
        lemma_rt_chs(tb);
        lemma_rt_push(d, k);
        assert(rt(b).len() < n);
        assert(e3_at(b, n) == e3_list(b));
        if buf.len() == 0 {
            lemma_t2_list_empty(buf);
        }
        assert(chs(tb).len() == tb.len());
        assert(m == MathsMode::SingleDollar(MathsVariant::Dollars) ==> mk(m).len() == 1 && mcl(m).len() == 0);
    }
}

/// and where that leads
pub proof fn lemma_e3_went(n: nat, d: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool, k: Tk, m2: MathsMode, depth2: int, out2: Seq<Chunk>)
    requires
        mi(d, m, depth, buf, bl, out, tb, w),
        e3i(n, d, m, depth, out),
        rt(d.push(k)).len() <= n,
        e3_next(n, d, m, depth, buf, bl, out, tb, k) is Ok,
        ({
            let s = e3_next(n, d, m, depth, buf, bl, out, tb, k)->Ok_0;
            &&& s.m == m2
            &&& brc(m2) ==> s.depth == depth2
            &&& m2 != MathsMode::None ==> t_list(out2).len() == (if m == MathsMode::None { d.len() } else { t_list(out).len() })
        }),
    ensures e3i(n, d.push(k), m2, depth2, out2),
{
    lemma_e3_next(n, d, m, depth, buf, bl, out, tb, w, k);
}

/// the next chunk is not a text
pub proof fn lemma_e3_chunk(all: Seq<Tk>, d: Seq<Tk>, x: ast2::Chunk, rest: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, w: bool)
    requires
        !(x.variant is Text),
        all == d + t2_variant(x.variant) + rest,
        mi(d, m, depth, buf, bl, out, Seq::empty(), w),
        e3i(rt(all).len(), d, m, depth, out),
    ensures ({
        let n = rt(all).len();
        let k = t2_variant(x.variant)[0];
        let r = e3_next(n, d, m, depth, buf, bl, out, Seq::empty(), k);
        &&& t2_variant(x.variant) == seq![k]
        &&& d + t2_variant(x.variant) == d.push(k)
        &&& rt(d.push(k)).len() <= n
        &&& r is Err ==> e3_list(all) == Some(r->Err_0)
        &&& t2_list(buf) + chs(Seq::empty()) == t2_list(buf)
        &&& match x.variant {
            ast2::ChunkVariant::Text(s) => true,
            ast2::ChunkVariant::Command(c) => k == Tk::Cmd(c.label@, t2_args(c.arguments@)) && e3_inner(k, n) == e3_cmd(c.label@, t2_args(c.arguments@)),
            ast2::ChunkVariant::Scope(s) => k == Tk::Grp(s.variant, t2_list(s.chunks@)) && e3_inner(k, n) == e3_list(t2_list(s.chunks@)),
            ast2::ChunkVariant::Environment(e) => k == Tk::Env(e.prec_begin@, e.label@, t2_args(e.arguments@), t2_list(e.content@), e.prec_end@)
                && e3_inner(k, n) == e3_env(e.prec_begin@, e.label@, t2_args(e.arguments@), t2_list(e.content@)),
        }
    }),
{
    let n = rt(all).len();
    def_t2_variant(x.variant);
    let k = t2_variant(x.variant)[0];
    lemma_chs_empty(Seq::empty());
    assert(t2_list(buf) + chs(Seq::empty()) =~= t2_list(buf));
    assert(t2_variant(x.variant) =~= seq![k]);
    assert(d + t2_variant(x.variant) =~= d.push(k));
    lemma_rt_add(d.push(k), rest);
    lemma_rt_push(d, k);
    assert(rt(d.push(k)).len() <= n);
    assert(rt1(k).len() <= n);
    lemma_e3_next(n, d, m, depth, buf, bl, out, Seq::empty(), w, k);
    lemma_e3_stop(all, d.push(k), rest);
    match x.variant {
        ast2::ChunkVariant::Text(s) => {},
        ast2::ChunkVariant::Command(c) => {
            lemma_e3_args_n(t2_args(c.arguments@), n, rta(t2_args(c.arguments@)).len());
        },
        ast2::ChunkVariant::Scope(s) => {},
        ast2::ChunkVariant::Environment(e) => {
            lemma_e3_args_n(t2_args(e.arguments@), n, rta(t2_args(e.arguments@)).len());
            crate::ast2_spec::lemma_t_begin(e.prec_begin@, e.label@);
            assert(t_begin(e.prec_begin@, e.label@).len() > 0);
        },
    }
}

/// nor one in a text
pub proof fn lemma_e3_char(all: Seq<Tk>, d: Seq<Tk>, c: char, rest: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool)
    requires
        all == d.push(Tk::Ch(c)) + rest,
        mi(d, m, depth, buf, bl, out, tb, w),
        e3i(rt(all).len(), d, m, depth, out),
    ensures ({
        let n = rt(all).len();
        let r = e3_next(n, d, m, depth, buf, bl, out, tb, Tk::Ch(c));
        &&& rt(d.push(Tk::Ch(c))).len() <= n
        &&& e3_inner(Tk::Ch(c), n) is None
        &&& r is Err ==> e3_list(all) == Some(r->Err_0)
    }),
{
    let n = rt(all).len();
    let k = Tk::Ch(c);
    lemma_rt_add(d.push(k), rest);
    lemma_e3_next(n, d, m, depth, buf, bl, out, tb, w, k);
    lemma_e3_stop(all, d.push(k), rest);
}

/// a text within brackets
pub proof fn lemma_e3_skip(n: nat, d: Seq<Tk>, m: MathsMode, depth: int, out: Seq<Chunk>, s: Seq<char>)
    requires
        brc(m),
        e3i(n, d, m, depth, out),
    ensures e3i(n, d + chs(s), m, depth, out),
    decreases s.len(),
{
    if s.len() == 0 {
        lemma_chs_empty(s);
        assert(d + chs(s) =~= d);
    } else {
        let a = s.drop_last();
        assert(s =~= a.push(s.last()));
        lemma_chs_push(a, s.last());
        lemma_e3_skip(n, d, m, depth, out, a);
        assert(d + chs(s) =~= (d + chs(a)).push(Tk::Ch(s.last())));
        assert((d + chs(s)).drop_last() =~= d + chs(a));
    }
}

/// all has been read
pub proof fn lemma_e3_done(all: Seq<Tk>, m: MathsMode, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, tb: Seq<char>, w: bool)
    requires
        mi(all, m, depth, buf, bl, out, tb, w),
        e3i(rt(all).len(), all, m, depth, out),
    ensures e3_list(all) == (if m == MathsMode::None { None } else { Some(PErr { line: bl, kind: EKind::UnclosedMaths }) }),
{
    if m != MathsMode::None {
        assert(all.take(t_list(out).len() as int) =~= t_list(out));
        lemma_rt3(out);
    }
}

/// nothing is being read
pub proof fn lemma_mi_none(d: Seq<Tk>, depth: int, buf: Seq<ast2::Chunk>, bl: int, out: Seq<Chunk>, w: bool)
    requires mi(d, MathsMode::None, depth, buf, bl, out, Seq::empty(), w),
    ensures t_list(out) == d,
{
    lemma_chs_empty(Seq::empty());
    lemma_t2_list_empty(buf);
    assert(t_list(out) =~= d);
}

// ---- which fault of the document comes first, and where

/// whether the class is named; whether the document was read, and at which piece
pub ghost struct DS {
    pub class: bool,
    pub doc: bool,
    pub open: int,
}

/// how many arguments are curly
pub closed spec fn tcurly(a: Seq<TkArg>) -> int
    decreases a.len(),
{
    if a.len() == 0 {
        0
    } else {
        tcurly(a.drop_last()) + if a.last().var is Curly { 1int } else { 0int }
    }
}

/// piece `i`, which stands in line `at`
pub open spec fn e3d_step(st: DS, k: Tk, i: int, at: int) -> Result<DS, PErr> {
    if st.doc {
        Ok(st)
    } else {
        match k {
            Tk::Env(p, l, a, b, q) => if l == "document"@ {
                match e3_env(p, l, a, b) {
                    None => Ok(DS { class: st.class, doc: true, open: i }),
                    Some(e) => Err(PErr { line: e.line + at - 1, kind: e.kind }),
                }
            } else {
                Ok(st)
            },
            Tk::Cmd(l, a) => if l == "documentclass"@ {
                if st.class {
                    Err(PErr { line: at, kind: EKind::DoubleDocumentClass })
                } else if tcurly(a) > 1 {
                    Err(PErr { line: at, kind: EKind::TooManyArgsDocumentClass })
                } else {
                    Ok(DS { class: tcurly(a) == 1, doc: false, open: st.open })
                }
            } else {
                Ok(st)
            },
            _ => Ok(st),
        }
    }
}

pub closed spec fn e3d_run(d: Seq<Tk>) -> Result<DS, PErr>
    decreases d.len(),
{
    if d.len() == 0 {
        Ok(DS { class: false, doc: false, open: 0 })
    } else {
        let p = d.drop_last();
        match e3d_run(p) {
            Err(e) => Err(e),
            Ok(st) => e3d_step(st, d.last(), p.len() as int, (1 + nl(rt(p))) as int),
        }
    }
}

/// the fault of a document: class and contents first, then the maths of the preamble and of what follows
pub closed spec fn e3_doc(l: Seq<Tk>) -> Option<PErr> {
    match e3d_run(l) {
        Err(e) => Some(e),
        Ok(st) => if st.doc {
            orelse(e3_list(l.take(st.open)), off(e3_list(l.skip(st.open + 1)), nl(rt(l.take(st.open + 1))) as int))
        } else {
            e3_list(l)
        },
    }
}

proof fn lemma_e3d_stop(a: Seq<Tk>, b: Seq<Tk>)
    ensures e3d_run(a) is Err ==> e3d_run(a + b) == e3d_run(a),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_e3d_stop(a, b.drop_last());
    }
}

proof fn lemma_e3d_chs(a: Seq<Tk>, s: Seq<char>)
    ensures e3d_run(a + chs(s)) == e3d_run(a),
    decreases s.len(),
{
    if s.len() == 0 {
        lemma_chs_empty(s);
        assert(a + chs(s) =~= a);
    } else {
        let t = s.drop_last();
        assert(s =~= t.push(s.last()));
        lemma_chs_push(t, s.last());
        lemma_e3d_chs(a, t);
        assert((a + chs(s)).drop_last() =~= a + chs(t));
        assert((a + chs(s)).last() == Tk::Ch(s.last()));
    }
}

/// the pieces `d` have been read, and no fault was found
pub closed spec fn e3di(d: Seq<Tk>, class: bool, doc: bool, pre: Seq<ast2::Chunk>) -> bool {
    let r = e3d_run(d);
    &&& r is Ok
    &&& r->Ok_0.class == class
    &&& r->Ok_0.doc == doc
    &&& doc ==> r->Ok_0.open == t2_list(pre).len()
}

pub proof fn lemma_e3d_begin(d: Seq<Tk>, pre: Seq<ast2::Chunk>)
    requires d.len() == 0,
    ensures e3di(d, false, false, pre),
{
}

/// what the next chunk does
pub open spec fn e3d_next(d: Seq<Tk>, class: bool, doc: bool, pre: Seq<ast2::Chunk>, x: ast2::Chunk) -> Result<DS, PErr> {
    let st = DS { class, doc, open: t2_list(pre).len() as int };
    match x.variant {
        ast2::ChunkVariant::Text(s) => Ok(st),
        _ => e3d_step(st, t2_variant(x.variant)[0], d.len() as int, (1 + nl(rt(d))) as int),
    }
}

proof fn lemma_e3d_step(d: Seq<Tk>, class: bool, doc: bool, pre: Seq<ast2::Chunk>, x: ast2::Chunk)
    requires e3di(d, class, doc, pre),
    ensures ({
        let r = e3d_run(d + t2_variant(x.variant));
        let q = e3d_next(d, class, doc, pre, x);
        &&& r is Err <==> q is Err
        &&& r is Err ==> r->Err_0 == q->Err_0
        &&& r is Ok ==> r->Ok_0.class == q->Ok_0.class && r->Ok_0.doc == q->Ok_0.doc && (r->Ok_0.doc ==> r->Ok_0.open == q->Ok_0.open)
        &&& !(x.variant is Text) ==> t2_variant(x.variant) == seq![t2_variant(x.variant)[0]]
    }),
{
    def_t2_variant(x.variant);
    match x.variant {
        ast2::ChunkVariant::Text(s) => {
            lemma_e3d_chs(d, s@);
        },
        _ => {
            let k = t2_variant(x.variant)[0];
            assert(t2_variant(x.variant) =~= seq![k]);
            assert(d + t2_variant(x.variant) =~= d.push(k));
            assert(d.push(k).drop_last() =~= d);
        },
    }
}

pub proof fn lemma_e3d_next(all: Seq<Tk>, d: Seq<Tk>, rest: Seq<Tk>, class: bool, doc: bool, pre: Seq<ast2::Chunk>, x: ast2::Chunk)
    requires
        e3di(d, class, doc, pre),
        all == d + t2_variant(x.variant) + rest,
    ensures ({
        let r = e3d_next(d, class, doc, pre, x);
        &&& r is Err ==> e3_doc(all) == Some(r->Err_0)
        &&& match x.variant {
            ast2::ChunkVariant::Command(c) => t2_variant(x.variant)[0] == Tk::Cmd(c.label@, t2_args(c.arguments@)) && tcurly(t2_args(c.arguments@)) == dcurly(c.arguments@),
            ast2::ChunkVariant::Scope(s) => t2_variant(x.variant)[0] == Tk::Grp(s.variant, t2_list(s.chunks@)),
            ast2::ChunkVariant::Environment(e) => t2_variant(x.variant)[0] == Tk::Env(e.prec_begin@, e.label@, t2_args(e.arguments@), t2_list(e.content@), e.prec_end@),
            _ => true,
        }
    }),
{
    lemma_e3d_step(d, class, doc, pre, x);
    lemma_e3d_stop(d + t2_variant(x.variant), rest);
    def_t2_variant(x.variant);
    if x.variant is Command {
        lemma_tcurly(x.variant->Command_0.arguments@);
    }
}

pub proof fn lemma_e3d_went(d: Seq<Tk>, class: bool, doc: bool, pre: Seq<ast2::Chunk>, x: ast2::Chunk, class2: bool, doc2: bool, pre2: Seq<ast2::Chunk>)
    requires
        e3di(d, class, doc, pre),
        e3d_next(d, class, doc, pre, x) is Ok,
        ({
            let s = e3d_next(d, class, doc, pre, x)->Ok_0;
            s.class == class2 && s.doc == doc2 && (doc2 ==> s.open == t2_list(pre2).len())
        }),
    ensures e3di(d + t2_variant(x.variant), class2, doc2, pre2),
{
    lemma_e3d_step(d, class, doc, pre, x);
}

/// all has been read: `g` is the preamble and the document
pub proof fn lemma_e3d_done(all: Seq<ast2::Chunk>, class: bool, doc: bool, pre: Seq<ast2::Chunk>, g: Seq<ast2::Chunk>, tr: Seq<ast2::Chunk>)
    requires
        e3di(t2_list(all), class, doc, pre),
        doc ==> t2_list(all) == t2_list(g) + t2_list(tr) && g.len() > 0 && g.drop_last() == pre && g.last().variant is Environment,
        !doc ==> pre == all,
    ensures
        e3_doc(t2_list(all)) == (if doc {
            orelse(e3_list(t2_list(pre)), off(e3_list(t2_list(tr)), nl(r2_list(g)) as int))
        } else {
            e3_list(t2_list(pre))
        }),
{
    if doc {
        let l = t2_list(all);
        let i = t2_list(pre).len() as int;
        assert(g =~= pre.push(g.last()));
        lemma_t2_list_push(pre, g.last());
        def_t2_variant(g.last().variant);
        assert(t2_list(g).len() == i + 1);
        assert(l.take(i) =~= t2_list(pre));
        assert(l.take(i + 1) =~= t2_list(g));
        assert(l.skip(i + 1) =~= t2_list(tr));
        lemma_rt2(g);
    }
}

pub proof fn lemma_tcurly(a: Seq<(String, ast2::Scope)>)
    ensures tcurly(t2_args(a)) == dcurly(a),
    decreases a.len(),
{
    if a.len() == 0 {
        lemma_t2_args_empty(a);
    } else {
        let d = a.drop_last();
        let x = a.last();
        assert(a =~= d.push(x));
        lemma_t2_args_push(d, x);
        let k = TkArg { pre: x.0@, var: x.1.variant, body: t2_list(x.1.chunks@) };
        assert(t2_args(d) + seq![k] =~= t2_args(d).push(k));
        assert(t2_args(a).drop_last() =~= t2_args(d));
        lemma_tcurly(d);
    }
}

proof fn lemma_dcurly_add(a: Seq<(String, ast2::Scope)>, b: Seq<(String, ast2::Scope)>)
    ensures
        dcurly(a + b) == dcurly(a) + dcurly(b),
        dcurly(b) >= 0,
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dcurly_add(a, b.drop_last());
    }
}

/// the curly arguments of a class command, some of them read
pub proof fn lemma_dca_count(da: Seq<(String, ast2::Scope)>, c0: Option<String>, o0: Seq<Opt>, done: Seq<(String, ast2::Scope)>, rest: Seq<(String, ast2::Scope)>, c: Option<String>, o: Seq<Opt>)
    requires
        dca(da, c0, o0),
        dca(da + done, c, o),
        c0 is None,
    ensures
        (c is Some ==> dcurly(done) == 1) && (c is None ==> dcurly(done) == 0),
        rest.len() > 0 && c is Some && rest[0].1.variant is Curly ==> dcurly(done + rest) > 1,
{
    lemma_dcurly_add(da, done);
    lemma_dcurly_add(done, rest);
    if rest.len() > 0 {
        let h = seq![rest[0]];
        let t = rest.skip(1);
        assert(rest =~= h + t);
        lemma_dcurly_add(h, t);
        assert(h.drop_last() =~= Seq::empty());
        assert(dcurly(h.drop_last()) == 0);
        assert(dcurly(h) == if rest[0].1.variant is Curly { 1int } else { 0int });
    }
}

// ---- what was parsed is valid, but for closing brackets that close nothing and odd environment names

pub open spec fn nc_text(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !is_close(#[trigger] s[i])
}

proof fn lemma_nc_text(s: Seq<char>)
    requires w_text(s), nc_text(s),
    ensures txt_ok(s),
{
    crate::ast1_spec::lemma_w_text_ok(s);
}

pub use crate::ast2_spec::{nc_name, lemma_nc_name};

/// no such bracket, no such name
pub closed spec fn nc_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => nc_text(s@),
        ChunkVariant::Command(c) => nc_args(c.arguments@),
        ChunkVariant::Scope(s) => nc_list(s.chunks@),
        ChunkVariant::Environment(e) => nc_name(e.label@) && nc_args(e.arguments@) && nc_list(e.content@),
        ChunkVariant::ParagraphBreak(s) => true,
        ChunkVariant::MathsBlock(m) => nc_list(m.content@),
    }
}

pub closed spec fn nc_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_list(c.drop_last()) && nc_variant(c.last().variant))
}

pub closed spec fn nc_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_args(c.drop_last()) && nc_list(c.last().1.chunks@))
}

pub proof fn lemma_valid(c: Seq<Chunk>)
    requires w_list(c), nc_list(c),
    ensures ok_list(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_list_push(a, x);
        lemma_ok_list_push(a, x);
        lemma_valid(a);
        lemma_valid_variant(x.variant);
        def_ok_chunk(x);
    } else {
        lemma_ok_list_empty(c);
    }
}

pub proof fn lemma_valid_variant(v: ChunkVariant)
    requires w_variant(v), nc_variant(v),
    ensures ok_variant(v),
    decreases v,
{
    def_w_variant(v);
    def_ok_variant(v);
    match v {
        ChunkVariant::Text(s) => { lemma_nc_text(s@); },
        ChunkVariant::Command(c) => { def_w_command(c); def_ok_command(c); lemma_valid_args(c.arguments@); },
        ChunkVariant::Scope(s) => { def_w_scope(s); def_ok_scope(s); lemma_valid(s.chunks@); },
        ChunkVariant::Environment(e) => { def_w_env(e); def_ok_env(e); lemma_nc_name(e.label@); lemma_valid_args(e.arguments@); lemma_valid(e.content@); },
        ChunkVariant::ParagraphBreak(s) => {  },
        ChunkVariant::MathsBlock(m) => { def_w_maths(m); def_ok_maths(m); lemma_valid(m.content@); },
    }
}

pub proof fn lemma_valid_args(c: Seq<(String, Scope)>)
    requires w_args(c), nc_args(c),
    ensures ok_args(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_args_push(a, x);
        lemma_ok_args_push(a, x);
        def_w_scope(x.1);
        def_ok_scope(x.1);
        lemma_valid_args(a);
        lemma_valid(x.1.chunks@);
    } else {
        lemma_ok_args_empty(c);
    }
}

/// numbered throughout, so numbered at the top
pub proof fn lemma_dn_num(c: Seq<Chunk>)
    requires dn_list(c),
    ensures num(c),
    decreases c,
{
    if c.len() > 0 {
        assert(c =~= c.drop_last().push(c.last()));
        lemma_dn_list_push(c.drop_last(), c.last());
        lemma_dn_num(c.drop_last());
        lemma_num_push(c.drop_last(), c.last());
    } else {
        lemma_num_empty(c);
    }
}


/// the parser's promise (C15): what it returns, `validate` accepts
proof fn lemma_parsed_valid(d: Document)
    requires
        dn_doc(d),
        w_doc(d),
        nc_list(d.preamable@) && nc_args(d.body_args@) && nc_list(d.body@) && nc_list(d.trailing@),
    ensures
        num(d.preamable@) && ok_list(d.preamable@) && num(d.body@) && ok_list(d.body@) && num(d.trailing@) && ok_list(d.trailing@),
        ok_args(d.body_args@),
{
    lemma_dn_num(d.preamable@);
    lemma_valid(d.preamable@);
    lemma_dn_num(d.body@);
    lemma_valid(d.body@);
    lemma_dn_num(d.trailing@);
    lemma_valid(d.trailing@);
    lemma_valid_args(d.body_args@);
}

pub broadcast group group_ast3 {
    def_r_variant,
    def_r_chunk,
    def_r_command,
    def_r_scope,
    def_r_env,
    def_r_maths,
    lemma_r_list_empty,
    lemma_r_list_push,
    lemma_r_list_add,
    lemma_r_args_empty,
    lemma_r_args_push,
    lemma_r_args_add,
    def_ok_variant,
    def_ok_chunk,
    def_ok_command,
    def_ok_scope,
    def_ok_env,
    def_ok_maths,
    lemma_ok_list_empty,
    lemma_ok_list_push,
    lemma_ok_list_add,
    lemma_ok_args_empty,
    lemma_ok_args_push,
    lemma_ok_args_add,
    def_bad_variant,
    def_bad_chunk,
    def_bad_command,
    def_bad_scope,
    def_bad_env,
    def_bad_maths,
    lemma_bad_list_empty,
    lemma_bad_list_push,
    lemma_bad_list_add,
    lemma_bad_args_empty,
    lemma_bad_args_push,
    lemma_bad_args_add,
    def_dn_variant,
    def_dn_command,
    def_dn_scope,
    def_dn_env,
    def_dn_maths,
    lemma_dn_list_empty,
    lemma_dn_list_push,
    lemma_dn_list_add,
    lemma_dn_args_empty,
    lemma_dn_args_push,
    lemma_dn_args_add,
    def_w_variant,
    def_w_command,
    def_w_scope,
    def_w_env,
    def_w_maths,
    lemma_w_list_empty,
    lemma_w_list_push,
    lemma_w_list_add,
    lemma_w_args_empty,
    lemma_w_args_push,
    lemma_w_args_add,
    def_mn_variant,
    def_mn_command,
    def_mn_scope,
    def_mn_env,
    def_mn_maths,
    lemma_mn_list_empty,
    lemma_mn_list_push,
    lemma_mn_list_add,
    lemma_mn_args_empty,
    lemma_mn_args_push,
    lemma_mn_args_add,
    def_t_variant,
    def_t_maths,
    lemma_t_list_empty,
    lemma_t_list_push,
    lemma_t_list_add,
    lemma_t_args_empty,
    lemma_t_args_push,
    lemma_t_args_add,
    def_t2_variant,
    lemma_t2_list_empty,
    lemma_t2_list_push,
    lemma_t2_list_add,
    lemma_t2_args_empty,
    lemma_t2_args_push,
    lemma_t2_args_add,
    def_mo_variant,
    def_mo_command,
    def_mo_scope,
    def_mo_env,
    lemma_mo_list_empty,
    lemma_mo_list_push,
    lemma_mo_list_add,
    lemma_mo_args_empty,
    lemma_mo_args_push,
    lemma_mo_args_add,
    lemma_e3_args_empty,
    lemma_num_empty,
    lemma_num_push,
    lemma_num_add,
    lemma_tail_nl_empty,
    lemma_tail_nl_push,
    lemma_brk_empty,
    lemma_brk_push,
    lemma_all_ws_empty,
    lemma_all_ws_push,
    lemma_chs_empty,
    lemma_chs_push,
    lemma_r_doc,
    lemma_pieces_empty,
    lemma_pieces_push,
    lemma_pre_w_list_empty,
    lemma_pre_w_list_push,
    lemma_m_lines,
    lemma_dnf2_empty,
    lemma_dnf2_push,
    lemma_dnf2_add,
    lemma_dnf2_one,
    crate::ast2_spec::lemma_t_begin,
    crate::ast2_spec::lemma_t_end,
    crate::ast1_spec::lemma_txt_empty,
    crate::ast1_spec::lemma_txt_push,
    crate::ast1_spec::lemma_txt_add,
    crate::ast1_spec::lemma_label,
}

/// has to fail: otherwise the lemmas in scope contradict each other
#[verifier::spinoff_prover]
#[verifier::rlimit(3)]
proof fn v_canary_ast3()
    ensures false,
{
}
