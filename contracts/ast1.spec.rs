// ---- brackets

pub open spec fn sv_open(v: ScopeVariant) -> char {
    match v {
        ScopeVariant::Curly => '{',
        ScopeVariant::Round => '(',
        ScopeVariant::Square => '[',
    }
}

pub open spec fn sv_close(v: ScopeVariant) -> char {
    match v {
        ScopeVariant::Curly => '}',
        ScopeVariant::Round => ')',
        ScopeVariant::Square => ']',
    }
}

pub open spec fn is_open(c: char) -> bool {
    c == '{' || c == '(' || c == '['
}

pub open spec fn is_close(c: char) -> bool {
    c == '}' || c == ')' || c == ']'
}

pub open spec fn sv_of(c: char) -> ScopeVariant {
    if c == '{' { ScopeVariant::Curly } else if c == '(' { ScopeVariant::Round } else { ScopeVariant::Square }
}

pub open spec fn sv_of_close(c: char) -> ScopeVariant {
    if c == '}' { ScopeVariant::Curly } else if c == ')' { ScopeVariant::Round } else { ScopeVariant::Square }
}

/// characters that a text may not contain
pub open spec fn special(c: char) -> bool {
    c == '\\' || c == '%' || is_open(c) || is_close(c)
}

// ---- the printed form

pub closed spec fn r_variant(v: ChunkVariant) -> Seq<char>
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => s@,
        ChunkVariant::Command(c) => r_command(c),
        ChunkVariant::Scope(s) => r_scope(s),
    }
}

pub broadcast proof fn def_r_variant(v: ChunkVariant)
    ensures #[trigger] r_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => s@,
        ChunkVariant::Command(c) => r_command(c),
        ChunkVariant::Scope(s) => r_scope(s),
    }}),
{

}

pub closed spec fn r_chunk(c: Chunk) -> Seq<char>
    decreases c,
{
    r_variant(c.variant)
}

pub broadcast proof fn def_r_chunk(c: Chunk)
    ensures #[trigger] r_chunk(c) == ({
    r_variant(c.variant)}),
{

}

pub closed spec fn r_command(c: Command) -> Seq<char>
    decreases c,
{
    seq!['\\'] + c.label@ + r_args(c.arguments@)
}

pub broadcast proof fn def_r_command(c: Command)
    ensures #[trigger] r_command(c) == ({
    seq!['\\'] + c.label@ + r_args(c.arguments@)}),
{

}

pub closed spec fn r_scope(s: Scope) -> Seq<char>
    decreases s,
{
    seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]
}

pub broadcast proof fn def_r_scope(s: Scope)
    ensures #[trigger] r_scope(s) == ({
    seq![sv_open(s.variant)] + r_list(s.chunks@) + seq![sv_close(s.variant)]}),
{

}

pub closed spec fn r_list(c: Seq<Chunk>) -> Seq<char>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        r_list(c.drop_last()) + r_chunk(c.last())
    }
}

pub closed spec fn r_args(c: Seq<(String, Scope)>) -> Seq<char>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        r_args(c.drop_last()) + (c.last().0@ + r_scope(c.last().1))
    }
}

/// for the other stages
pub proof fn lemma_w_text_ok(s: Seq<char>)
    requires w_text(s), forall|i: int| 0 <= i < s.len() ==> !is_close(#[trigger] s[i]),
    ensures txt_ok(s),
{
}

// ---- what was parsed is valid, but for closing brackets that close nothing and odd environment names

pub open spec fn nc_text(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !is_close(#[trigger] s[i])
}

proof fn lemma_nc_text(s: Seq<char>)
    requires w_text(s), nc_text(s),
    ensures txt_ok(s),
{
}

proof fn lemma_label_ok(s: Seq<char>)
    ensures txt_ok(s) || s.len() == 1 ==> label_ok(s),
{
}

/// no such bracket, no such name
pub closed spec fn nc_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => nc_text(s@),
        ChunkVariant::Command(c) => nc_args(c.arguments@),
        ChunkVariant::Scope(s) => nc_list(s.chunks@),
    }
}

pub closed spec fn nc_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_list(c.drop_last()) && nc_variant(c.last().variant))
}

pub closed spec fn nc_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (nc_args(c.drop_last()) && nc_list(c.last().1.chunks@))
}

pub proof fn lemma_valid(c: Seq<Chunk>)
    requires w_list(c), nc_list(c),
    ensures ok_list(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_list_push(a, x);
        lemma_ok_list_push(a, x);
        lemma_valid(a);
        lemma_valid_variant(x.variant);
        def_ok_chunk(x);
    } else {
        lemma_ok_list_empty(c);
    }
}

pub proof fn lemma_valid_variant(v: ChunkVariant)
    requires w_variant(v), nc_variant(v),
    ensures ok_variant(v),
    decreases v,
{
    def_w_variant(v);
    def_ok_variant(v);
    match v {
        ChunkVariant::Text(s) => { lemma_nc_text(s@); },
        ChunkVariant::Command(c) => { def_w_command(c); def_ok_command(c); lemma_valid_args(c.arguments@); lemma_label_ok(c.label@); },
        ChunkVariant::Scope(s) => { def_w_scope(s); def_ok_scope(s); lemma_valid(s.chunks@); },
    }
}

pub proof fn lemma_valid_args(c: Seq<(String, Scope)>)
    requires w_args(c), nc_args(c),
    ensures ok_args(c),
    decreases c,
{
    if c.len() > 0 {
        let a = c.drop_last();
        let x = c.last();
        assert(c =~= a.push(x));
        lemma_w_args_push(a, x);
        lemma_ok_args_push(a, x);
        def_w_scope(x.1);
        def_ok_scope(x.1);
        lemma_valid_args(a);
        lemma_valid(x.1.chunks@);
    } else {
        lemma_ok_args_empty(c);
    }
}


/// the parser's promise (C15): what it returns, `validate` accepts
proof fn lemma_parsed_valid(d: Document)
    requires dn_list(d.0@), w_list(d.0@), nc_list(d.0@),
    ensures num(d.0@) && ok_list(d.0@),
{
    lemma_dn_num(d.0@);
    lemma_valid(d.0@);
}

pub broadcast group group_ast1_lists {
    def_r_variant,
    def_r_chunk,
    def_r_command,
    def_r_scope,
    lemma_r_list_push,
    lemma_r_list_add,
    lemma_r_list_empty,
    lemma_r_args_push,
    lemma_r_args_add,
    lemma_r_args_empty,
    def_dn_variant,
    def_dn_command,
    def_dn_scope,
    lemma_dn_list_push,
    lemma_dn_list_empty,
    lemma_dn_args_push,
    lemma_dn_args_empty,
    def_w_variant,
    def_w_command,
    def_w_scope,
    lemma_w_list_push,
    lemma_w_list_empty,
    lemma_w_args_push,
    lemma_w_args_empty,
    lemma_dn_list_add,
    lemma_dn_args_add,
    lemma_w_list_add,
    lemma_w_args_add,
}

pub broadcast group group_ast1 {
    def_r_variant,
    def_r_chunk,
    def_r_command,
    def_r_scope,
    def_ok_variant,
    def_ok_chunk,
    def_ok_command,
    def_ok_scope,
    def_bad_variant,
    def_bad_chunk,
    def_bad_command,
    def_bad_scope,
    lemma_r_list_push,
    lemma_r_list_add,
    lemma_r_args_push,
    lemma_r_args_add,
    lemma_ok_list_push,
    lemma_ok_list_add,
    lemma_ok_args_push,
    lemma_ok_args_add,
    lemma_bad_list_push,
    lemma_bad_list_add,
    lemma_bad_args_push,
    lemma_bad_args_add,
    lemma_num_push,
    lemma_num_add,
    def_dn_variant,
    def_dn_command,
    def_dn_scope,
    lemma_dn_list_push,
    lemma_dn_args_push,
    def_w_variant,
    def_w_command,
    def_w_scope,
    lemma_w_list_push,
    lemma_w_args_push,
    lemma_lex_push,
    lemma_clean_push,
    lemma_clean_empty,
    lemma_clean_escaped,
    lemma_add_one,
    lemma_tot,
    lemma_assoc_r,
    lemma_add_push,
    lemma_t_scope,
    lemma_t_scope_open,
    lemma_t_scope_push,
    lemma_t_command,
    lemma_t_command_open,
    lemma_t_command_one,
    lemma_pushed,
    lemma_args_clean_last,
    lemma_txt_empty,
    lemma_txt_push,
    lemma_txt_add,
    lemma_w_text_empty,
    lemma_w_text_push,
    lemma_w_text_add,
    lemma_label,
    lemma_clean_strip,
    lemma_strip,
    lemma_args_clean_at,
    lemma_args_clean_empty,
    lemma_p_args_push,
    lemma_r_list_empty,
    lemma_r_args_empty,
    lemma_ok_list_empty,
    lemma_ok_args_empty,
    lemma_dn_list_empty,
    lemma_dn_args_empty,
    lemma_w_list_empty,
    lemma_w_args_empty,
    lemma_bad_list_empty,
    lemma_bad_args_empty,
    lemma_num_empty,
    lemma_p_args_empty,
    lemma_lex_empty,
    def_nd_variant,
    lemma_nd_list_push,
    lemma_nd_args_push,
    lemma_nd_list_empty,
    lemma_nd_args_empty,
    lemma_p_run_empty,
    lemma_p_run_push,
    lemma_p_flush_txt,
    lemma_p_sub,
    lemma_pb_args,
    lemma_pb_args_push,
    lemma_pb_pushed,
    lemma_pb_push_new,
    lemma_nd_add_one,
    def_pf_variant,
    lemma_pf_list_push,
    lemma_pf_args_push,
    lemma_pf_list_empty,
    lemma_pf_args_empty,
}

pub broadcast proof fn lemma_r_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] r_list(a.push(c)) == r_list(a) + r_chunk(c),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_r_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] r_list(a + b) == r_list(a) + r_list(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(r_list(a) + r_list(b) =~= r_list(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_r_list_add(a, b.drop_last());
        assert(r_list(a + b) =~= r_list(a) + r_list(b));
    }
}

pub broadcast proof fn lemma_r_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] r_args(a.push(c)) == r_args(a) + (c.0@ + r_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_r_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] r_args(a + b) == r_args(a) + r_args(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(r_args(a) + r_args(b) =~= r_args(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_r_args_add(a, b.drop_last());
        assert(r_args(a + b) =~= r_args(a) + r_args(b));
    }
}

// ---- validity

pub closed spec fn txt_ok(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i])
}

/// the definition, elsewhere
pub proof fn lemma_txt_ok_def(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]),
    ensures txt_ok(s),
{
}

pub proof fn lemma_special_label(s: Seq<char>)
    requires s.len() > 0 && special(s[0]),
    ensures !txt_ok(s),
{
}

/// a name of one character may be any
pub closed spec fn label_ok(s: Seq<char>) -> bool {
    s.len() == 1 || txt_ok(s)
}

pub closed spec fn ok_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => txt_ok(s@),
        ChunkVariant::Command(c) => ok_command(c),
        ChunkVariant::Scope(s) => ok_scope(s),
    }
}

pub broadcast proof fn def_ok_variant(v: ChunkVariant)
    ensures #[trigger] ok_variant(v) == ({
    match v {
        ChunkVariant::Text(s) => txt_ok(s@),
        ChunkVariant::Command(c) => ok_command(c),
        ChunkVariant::Scope(s) => ok_scope(s),
    }}),
{

}

pub closed spec fn ok_chunk(c: Chunk) -> bool
    decreases c,
{
    ok_variant(c.variant)
}

pub broadcast proof fn def_ok_chunk(c: Chunk)
    ensures #[trigger] ok_chunk(c) == ({
    ok_variant(c.variant)}),
{

}

pub closed spec fn ok_command(c: Command) -> bool
    decreases c,
{
    label_ok(c.label@) && ok_args(c.arguments@)
}

pub broadcast proof fn def_ok_command(c: Command)
    ensures #[trigger] ok_command(c) == ({
    label_ok(c.label@) && ok_args(c.arguments@)}),
{

}

pub closed spec fn ok_scope(s: Scope) -> bool
    decreases s,
{
    ok_list(s.chunks@)
}

pub broadcast proof fn def_ok_scope(s: Scope)
    ensures #[trigger] ok_scope(s) == ({
    ok_list(s.chunks@)}),
{

}

pub closed spec fn ok_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (ok_list(c.drop_last()) && ok_chunk(c.last()))
}

pub closed spec fn ok_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (ok_args(c.drop_last()) && ok_scope(c.last().1))
}

pub broadcast proof fn lemma_ok_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] ok_list(a.push(c)) == (ok_list(a) && ok_chunk(c)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_ok_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] ok_list(a + b) == (ok_list(a) && ok_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ok_list_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_ok_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] ok_args(a.push(c)) == (ok_args(a) && ok_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_ok_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] ok_args(a + b) == (ok_args(a) && ok_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ok_args_add(a, b.drop_last());
    }
}

// ---- what a rejection may say: a violation that is there

pub open spec fn bad_text(s: Seq<char>, e: InternalError) -> bool {
    match e {
        InternalError::UnsanitisedCharInString(c) => special(c) && s.contains(c),
        _ => false,
    }
}

pub closed spec fn bad_variant(v: ChunkVariant, e: InternalError) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => bad_text(s@, e),
        ChunkVariant::Command(c) => bad_command(c, e),
        ChunkVariant::Scope(s) => bad_scope(s, e),
    }
}

pub broadcast proof fn def_bad_variant(v: ChunkVariant, e: InternalError)
    ensures #[trigger] bad_variant(v, e) == ({
    match v {
        ChunkVariant::Text(s) => bad_text(s@, e),
        ChunkVariant::Command(c) => bad_command(c, e),
        ChunkVariant::Scope(s) => bad_scope(s, e),
    }}),
{

}

pub closed spec fn bad_chunk(c: Chunk, e: InternalError) -> bool
    decreases c,
{
    bad_variant(c.variant, e)
}

pub broadcast proof fn def_bad_chunk(c: Chunk, e: InternalError)
    ensures #[trigger] bad_chunk(c, e) == ({
    bad_variant(c.variant, e)}),
{

}

pub closed spec fn bad_command(c: Command, e: InternalError) -> bool
    decreases c,
{
    (c.label@.len() != 1 && bad_text(c.label@, e)) || bad_args(c.arguments@, e)
}

pub broadcast proof fn def_bad_command(c: Command, e: InternalError)
    ensures #[trigger] bad_command(c, e) == ({
    (c.label@.len() != 1 && bad_text(c.label@, e)) || bad_args(c.arguments@, e)}),
{

}

pub closed spec fn bad_scope(s: Scope, e: InternalError) -> bool
    decreases s,
{
    bad_list(s.chunks@, e)
}

pub broadcast proof fn def_bad_scope(s: Scope, e: InternalError)
    ensures #[trigger] bad_scope(s, e) == ({
    bad_list(s.chunks@, e)}),
{

}

pub closed spec fn bad_list(c: Seq<Chunk>, e: InternalError) -> bool
    decreases c,
{
    c.len() > 0 && (bad_list(c.drop_last(), e) || bad_chunk(c.last(), e))
}

pub closed spec fn bad_args(c: Seq<(String, Scope)>, e: InternalError) -> bool
    decreases c,
{
    c.len() > 0 && (bad_args(c.drop_last(), e) || bad_scope(c.last().1, e))
}

pub broadcast proof fn lemma_bad_list_push(a: Seq<Chunk>, c: Chunk, e: InternalError)
    ensures #[trigger] bad_list(a.push(c), e) == (bad_list(a, e) || bad_chunk(c, e)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_bad_list_add(a: Seq<Chunk>, b: Seq<Chunk>, e: InternalError)
    ensures #[trigger] bad_list(a + b, e) == (bad_list(a, e) || bad_list(b, e)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bad_list_add(a, b.drop_last(), e);
    }
}

pub broadcast proof fn lemma_bad_args_push(a: Seq<(String, Scope)>, c: (String, Scope), e: InternalError)
    ensures #[trigger] bad_args(a.push(c), e) == (bad_args(a, e) || bad_scope(c.1, e)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_bad_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>, e: InternalError)
    ensures #[trigger] bad_args(a + b, e) == (bad_args(a, e) || bad_args(b, e)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_bad_args_add(a, b.drop_last(), e);
    }
}

// ---- line numbers

/// the chunks of a list carry the lines they start in, counted from 1
pub closed spec fn num(c: Seq<Chunk>) -> bool
    decreases c.len(),
{
    c.len() == 0 || (num(c.drop_last()) && c.last().line_no == 1 + nl(r_list(c.drop_last())))
}

pub broadcast proof fn lemma_num_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] num(a.push(c)) == (num(a) && c.line_no == 1 + nl(r_list(a))),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_num_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] num(a + b) ==> num(a),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_num_add(a, b.drop_last());
    }
}

/// the line a list ends in
pub open spec fn end_line(c: Seq<Chunk>) -> int {
    if c.len() == 0 {
        1
    } else {
        c.last().line_no + nl(r_chunk(c.last()))
    }
}

/// a misnumbered chunk that `e` is about
pub open spec fn bad_num(c: Seq<Chunk>, e: InternalError) -> bool {
    match e {
        InternalError::IncorrectChunkLineNumber { expected, got } => exists|i: int|
            0 <= i < c.len() && (#[trigger] c[i]).line_no == got && got != expected && expected == 1 + nl(
                r_list(c.take(i)),
            ),
        _ => false,
    }
}

/// what pushing does to the list
pub open spec fn is_pushed(o: Seq<Chunk>, x: Chunk, f: Seq<Chunk>) -> bool {
    if o.len() > 0 && o.last().variant is Text && x.variant is Text {
        &&& f.len() == o.len()
        &&& f.drop_last() =~= o.drop_last()
        &&& f.last().line_no == o.last().line_no
        &&& f.last().variant is Text
        &&& f.last().variant->Text_0@ == o.last().variant->Text_0@ + x.variant->Text_0@
    } else {
        f =~= o.push(x)
    }
}

// ---- deep numbering: every list, however deeply nested

pub closed spec fn dn_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => dn_command(c),
        ChunkVariant::Scope(s) => dn_scope(s),
    }
}

pub closed spec fn dn_command(c: Command) -> bool
    decreases c,
{
    dn_args(c.arguments@)
}

pub closed spec fn dn_scope(s: Scope) -> bool
    decreases s,
{
    dn_list(s.chunks@)
}

pub closed spec fn dn_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (dn_list(c.drop_last()) && c.last().line_no == 1 + nl(r_list(c.drop_last())) && dn_variant(
        c.last().variant,
    ))
}

pub closed spec fn dn_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (dn_args(c.drop_last()) && dn_scope(c.last().1))
}

pub broadcast proof fn def_dn_variant(v: ChunkVariant)
    ensures
        #[trigger] dn_variant(v) == (match v {
            ChunkVariant::Text(s) => true,
            ChunkVariant::Command(c) => dn_command(c),
            ChunkVariant::Scope(s) => dn_scope(s),
        }),
{
}

pub broadcast proof fn def_dn_command(c: Command)
    ensures #[trigger] dn_command(c) == dn_args(c.arguments@),
{
}

pub broadcast proof fn def_dn_scope(s: Scope)
    ensures #[trigger] dn_scope(s) == dn_list(s.chunks@),
{
}

pub broadcast proof fn lemma_dn_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] dn_list(a.push(c)) == (dn_list(a) && c.line_no == 1 + nl(r_list(a)) && dn_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_dn_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] dn_args(a.push(c)) == (dn_args(a) && dn_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub proof fn lemma_dn_num(a: Seq<Chunk>)
    ensures dn_list(a) ==> num(a),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_dn_num(a.drop_last());
    }
}

// ---- what the parser accepts: valid but for closing brackets in texts

pub closed spec fn w_text(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]) || is_close(s[i])
}

pub closed spec fn w_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => w_text(s@),
        ChunkVariant::Command(c) => w_command(c),
        ChunkVariant::Scope(s) => w_scope(s),
    }
}

pub closed spec fn w_command(c: Command) -> bool
    decreases c,
{
    (txt_ok(c.label@) || (c.label@.len() == 1 && c.arguments@.len() == 0)) && w_args(c.arguments@)
}

pub closed spec fn w_scope(s: Scope) -> bool
    decreases s,
{
    w_list(s.chunks@)
}

pub closed spec fn w_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (w_list(c.drop_last()) && w_variant(c.last().variant))
}

pub closed spec fn w_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (w_args(c.drop_last()) && w_scope(c.last().1))
}

pub broadcast proof fn def_w_variant(v: ChunkVariant)
    ensures
        #[trigger] w_variant(v) == (match v {
            ChunkVariant::Text(s) => w_text(s@),
            ChunkVariant::Command(c) => w_command(c),
            ChunkVariant::Scope(s) => w_scope(s),
        }),
{
}

pub broadcast proof fn def_w_command(c: Command)
    ensures #[trigger] w_command(c) == ((txt_ok(c.label@) || (c.label@.len() == 1 && c.arguments@.len() == 0)) && w_args(c.arguments@)),
{
}

pub broadcast proof fn def_w_scope(s: Scope)
    ensures #[trigger] w_scope(s) == w_list(s.chunks@),
{
}

pub broadcast proof fn lemma_w_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] w_list(a.push(c)) == (w_list(a) && w_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_w_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] w_args(a.push(c)) == (w_args(a) && w_scope(c.1)),
{
    assert(a.push(c).drop_last() =~= a);
}

/// a text of the parser without closing brackets is a clean one
pub broadcast proof fn lemma_w_txt(s: Seq<char>)
    requires #[trigger] w_text(s), forall|i: int| 0 <= i < s.len() ==> !is_close(#[trigger] s[i]),
    ensures txt_ok(s),
{
}

pub broadcast proof fn lemma_txt_def(s: Seq<char>)
    ensures #[trigger] txt_ok(s) == (forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i])),
{
}

/// whether a text somewhere holds a closing bracket
pub closed spec fn cl_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => exists|i: int| 0 <= i < s@.len() && is_close(#[trigger] s@[i]),
        ChunkVariant::Command(c) => cl_args(c.arguments@),
        ChunkVariant::Scope(s) => cl_list(s.chunks@),
    }
}

pub closed spec fn cl_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() > 0 && (cl_list(c.drop_last()) || cl_variant(c.last().variant))
}

pub closed spec fn cl_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() > 0 && (cl_args(c.drop_last()) || cl_list(c.last().1.chunks@))
}

/// C15, stage 1
pub proof fn lemma_c15_variant(v: ChunkVariant)
    ensures w_variant(v) && !cl_variant(v) ==> ok_variant(v),
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => {}
        ChunkVariant::Command(c) => lemma_c15_args(c.arguments@),
        ChunkVariant::Scope(s) => lemma_c15_list(s.chunks@),
    }
}

pub proof fn lemma_c15_list(c: Seq<Chunk>)
    ensures w_list(c) && !cl_list(c) ==> ok_list(c),
    decreases c,
{
    if c.len() > 0 {
        lemma_c15_list(c.drop_last());
        lemma_c15_variant(c.last().variant);
        assert(ok_chunk(c.last()) == ok_variant(c.last().variant));
    }
}

pub proof fn lemma_c15_args(c: Seq<(String, Scope)>)
    ensures w_args(c) && !cl_args(c) ==> ok_args(c),
    decreases c,
{
    if c.len() > 0 {
        lemma_c15_args(c.drop_last());
        lemma_c15_list(c.last().1.chunks@);
        assert(w_scope(c.last().1) == w_list(c.last().1.chunks@));
        assert(ok_scope(c.last().1) == ok_list(c.last().1.chunks@));
    }
}

// ---- the source without its comments

pub ghost struct Lex {
    /// what is read so far, comments left out
    pub out: Seq<char>,
    /// a backslash was read that waits for its character
    pub esc: bool,
    /// inside a comment
    pub com: bool,
}

pub open spec fn lex_step(l: Lex, c: char) -> Lex {
    if c == '\n' {
        Lex { out: (if l.esc { l.out.push('\\') } else { l.out }).push(c), esc: false, com: false }
    } else if l.com {
        l
    } else if c == '%' && !l.esc {
        Lex { out: l.out, esc: false, com: true }
    } else if c == '\\' && !l.esc {
        Lex { out: l.out, esc: true, com: false }
    } else {
        Lex { out: (if l.esc { l.out.push('\\') } else { l.out }).push(c), esc: false, com: false }
    }
}

pub closed spec fn lex(s: Seq<char>) -> Lex
    decreases s.len(),
{
    if s.len() == 0 {
        Lex { out: Seq::empty(), esc: false, com: false }
    } else {
        lex_step(lex(s.drop_last()), s.last())
    }
}

/// the text with its comments removed
pub closed spec fn strip(s: Seq<char>) -> Seq<char> {
    if lex(s).esc {
        lex(s).out.push('\\')
    } else {
        lex(s).out
    }
}

pub broadcast proof fn lemma_lex_push(s: Seq<char>, c: char)
    ensures #[trigger] lex(s.push(c)) == lex_step(lex(s), c),
{
    assert(s.push(c).drop_last() =~= s);
}

pub proof fn lemma_lex_size(s: Seq<char>)
    ensures
        lex(s).out.len() + (if lex(s).esc { 1int } else { 0 }) <= s.len(),
        nl(lex(s).out) == nl(s),
        lex(s).com ==> !lex(s).esc,
    decreases s.len(),
{
    reveal(nl);
    if s.len() > 0 {
        lemma_lex_size(s.drop_last());
    }
}

/// text that the parser reads back as it is
pub closed spec fn clean(s: Seq<char>) -> bool {
    lex(s) == (Lex { out: s, esc: false, com: false })
}

pub broadcast proof fn lemma_clean_push(s: Seq<char>, c: char)
    requires clean(s), c != '%', c != '\\',
    ensures #[trigger] clean(s.push(c)),
{
    lemma_lex_push(s, c);
}

pub broadcast proof fn lemma_clean_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] clean(s),
{
    assert(s =~= Seq::<char>::empty());
}

pub broadcast proof fn lemma_clean_escaped(s: Seq<char>, c: char)
    requires clean(s),
    ensures #[trigger] clean(s.push('\\').push(c)),
{
    lemma_lex_push(s, '\\');
    lemma_lex_push(s.push('\\'), c);
}

// ---- the buffer of the parser

pub type Arg = (String, ScopeVariant, String);

/// the text of complete arguments
pub closed spec fn p_args(s: Seq<Arg>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        p_args(s.drop_last()) + (s.last().2@ + (seq![sv_open(s.last().1)] + s.last().0@ + seq![sv_close(s.last().1)]))
    }
}

pub broadcast proof fn lemma_p_args_push(a: Seq<Arg>, c: Arg)
    ensures #[trigger] p_args(a.push(c)) == p_args(a) + (c.2@ + (seq![sv_open(c.1)] + c.0@ + seq![sv_close(c.1)])),
{
    assert(a.push(c).drop_last() =~= a);
}

pub closed spec fn t_scope_open(v: ScopeVariant, s: Seq<char>) -> Seq<char> {
    seq![sv_open(v)] + s
}

pub closed spec fn t_scope(v: ScopeVariant, s: Seq<char>) -> Seq<char> {
    seq![sv_open(v)] + s + seq![sv_close(v)]
}

/// a command, the last argument open
pub closed spec fn t_command_open(l: Seq<char>, s: Seq<Arg>) -> Seq<char> {
    seq!['\\'] + l + (p_args(s.drop_last()) + (s.last().2@ + (seq![sv_open(s.last().1)] + s.last().0@)))
}

pub closed spec fn t_command(l: Seq<char>, s: Seq<Arg>) -> Seq<char> {
    seq!['\\'] + l + p_args(s)
}

/// what `flush` turns into a chunk
pub open spec fn pend_f(b: Buffer) -> Seq<char> {
    match b {
        Buffer::Text { content } => content@,
        Buffer::Scope { content, variant, depth } => {
            if depth == 0 {
                t_scope(variant, content@)
            } else {
                t_scope_open(variant, content@)
            }
        },
        Buffer::Command { label, scopes, depth, trailing } => {
            if depth == 0 {
                t_command(label@, scopes@)
            } else {
                t_command_open(label@, scopes@)
            }
        },
    }
}

/// the blanks after a command
pub open spec fn tr(b: Buffer) -> Seq<char> {
    match b {
        Buffer::Command { label, scopes, depth, trailing } => trailing@,
        _ => Seq::empty(),
    }
}

/// the text read so far, held in chunks and buffer
pub closed spec fn tot(c: Seq<Chunk>, b: Buffer) -> Seq<char> {
    (r_list(c) + pend_f(b)) + tr(b)
}

pub broadcast proof fn lemma_tot(c: Seq<Chunk>, b: Buffer)
    ensures
        #[trigger] tot(c, b) == (r_list(c) + pend_f(b)) + tr(b),
        nl(tot(c, b)) == nl(r_list(c)) + nl(pend_f(b)) + nl(tr(b)),
        tot(c, b).len() == r_list(c).len() + pend_f(b).len() + tr(b).len(),
        tr(b).len() == 0 ==> tot(c, b) == r_list(c) + pend_f(b),
        tr(b).len() == 0 && pend_f(b).len() == 0 ==> tot(c, b) == r_list(c),
{
    assert(tot(c, b) =~= (r_list(c) + pend_f(b)) + tr(b));
    lemma_nl_add(r_list(c) + pend_f(b), tr(b));
    lemma_nl_add(r_list(c), pend_f(b));
    assert(tr(b).len() == 0 ==> tot(c, b) =~= r_list(c) + pend_f(b));
    assert(tr(b).len() == 0 && pend_f(b).len() == 0 ==> tot(c, b) =~= r_list(c));
}

pub broadcast proof fn lemma_assoc_r(c: Seq<Chunk>, a: Seq<char>, b: Seq<char>)
    ensures #[trigger] (r_list(c) + (a + b)) == (r_list(c) + a) + b,
{
    assert(r_list(c) + (a + b) =~= (r_list(c) + a) + b);
}

pub broadcast proof fn lemma_add_push(a: Seq<char>, b: Seq<char>, c: char)
    ensures #[trigger] (a + b.push(c)) == (a + b).push(c),
{
    assert(a + b.push(c) =~= (a + b).push(c));
}

pub broadcast proof fn lemma_t_scope(v: ScopeVariant, s: Seq<char>)
    ensures
        #[trigger] t_scope(v, s) == t_scope_open(v, s).push(sv_close(v)),
{
    assert(t_scope(v, s) =~= t_scope_open(v, s).push(sv_close(v)));
}

pub broadcast proof fn lemma_t_scope_open(v: ScopeVariant, s: Seq<char>)
    ensures
        (#[trigger] t_scope_open(v, s)).len() == 1 + s.len(),
        s.len() == 0 ==> t_scope_open(v, s) == seq![sv_open(v)],
{
    assert(s.len() == 0 ==> t_scope_open(v, s) =~= seq![sv_open(v)]);
}

pub broadcast proof fn lemma_t_scope_push(v: ScopeVariant, s: Seq<char>, c: char)
    ensures #[trigger] t_scope_open(v, s.push(c)) == t_scope_open(v, s).push(c),
{
    assert(t_scope_open(v, s.push(c)) =~= t_scope_open(v, s).push(c));
}

pub broadcast proof fn lemma_t_command(l: Seq<char>, s: Seq<Arg>)
    ensures
        s.len() == 0 ==> #[trigger] t_command(l, s) == seq!['\\'] + l,
        s.len() > 0 ==> t_command(l, s) == t_command_open(l, s).push(sv_close(s.last().1)),
{
    assert(s.len() == 0 ==> t_command(l, s) =~= seq!['\\'] + l);
    assert(s.len() > 0 ==> t_command(l, s) =~= t_command_open(l, s).push(sv_close(s.last().1)));
}

/// the first character of a command
pub broadcast proof fn lemma_t_command_one(a: Seq<char>, l: Seq<char>)
    requires l.len() == 1,
    ensures
        #[trigger] (a + (seq!['\\'] + l)) == a.push('\\').push(l[0]),
        nl(seq!['\\'] + l) == if l[0] == '\n' { 1nat } else { 0nat },
{
    assert(a + (seq!['\\'] + l) =~= a.push('\\').push(l[0]));
    assert(seq!['\\'] + l =~= Seq::empty().push('\\').push(l[0]));
}

/// what is pushed ends up at the end of the text held
pub broadcast proof fn lemma_pushed(o: Buffer, f: Buffer, t: Seq<char>)
    requires #[trigger] buf_pushed(o, f, t),
    ensures
        match o {
            Buffer::Text { content } => true,
            Buffer::Scope { content, variant, depth } => depth > 0,
            Buffer::Command { label, scopes, depth, trailing } => (scopes@.len() == 0 <==> depth == 0),
        } ==> pend_f(f) == pend_f(o) + t,
        o is Text && pend_f(o).len() == 0 ==> pend_f(f) == t,
{
    match (o, f) {
        (
            Buffer::Command { label, scopes, depth, trailing },
            Buffer::Command { label: l2, scopes: s2, depth: d2, trailing: t2 },
        ) => {
            if scopes@.len() == 0 && depth == 0 {
                assert(t_command(l2@, s2@) =~= t_command(label@, scopes@) + t) by {
                    assert(p_args(scopes@) =~= Seq::empty());
                    assert(p_args(s2@) =~= Seq::empty());
                }
            }
            if scopes@.len() != 0 && depth != 0 {
                assert(t_command_open(l2@, s2@) =~= t_command_open(label@, scopes@) + t);
            }
        },
        (Buffer::Scope { content, variant, depth }, Buffer::Scope { content: c2, variant: v2, depth: d2 }) => {
            if depth > 0 {
                assert(t_scope_open(v2, c2@) =~= t_scope_open(variant, content@) + t);
            }
        },
        _ => {
            if o is Text && pend_f(o).len() == 0 {
                assert(pend_f(f) =~= t);
            }
        },
    }
}

/// an argument is opened
pub proof fn lemma_push_scope(l: Seq<char>, s: Seq<Arg>, a: Arg)
    requires a.0@.len() == 0,
    ensures t_command_open(l, s.push(a)) == (t_command(l, s) + a.2@).push(sv_open(a.1)),
{
    assert(s.push(a).drop_last() =~= s);
    assert(t_command_open(l, s.push(a)) =~= (t_command(l, s) + a.2@).push(sv_open(a.1)));
}

/// in the form `flush` prints
pub proof fn lemma_t_forms(l: Seq<char>, s: Seq<Arg>, v: ScopeVariant, c: Seq<char>)
    ensures
        t_command(l, s) == seq!['\\'] + l + p_args(s),
        t_scope(v, c) == seq![sv_open(v)] + c + seq![sv_close(v)],
{
}


pub closed spec fn args_clean(s: Seq<Arg>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> clean((#[trigger] s[i]).0@)
}

/// consistency of the buffer
pub open spec fn buf_ok(b: Buffer) -> bool {
    match b {
        Buffer::Text { content } => w_text(content@),
        Buffer::Scope { content, variant, depth } => clean(content@) && depth <= 1 + content@.len(),
        Buffer::Command { label, scopes, depth, trailing } => {
            &&& args_clean(scopes@)
            &&& txt_ok(label@) || (label@.len() == 1 && scopes@.len() == 0)
            &&& w_text(trailing@)
            &&& depth > 0 ==> scopes@.len() > 0 && trailing@.len() == 0 && depth <= 1 + scopes@.last().0@.len()
        },
    }
}

/// the buffer in between two characters of the source
pub open spec fn buf_between(b: Buffer) -> bool {
    buf_ok(b) && match b {
        Buffer::Scope { content, variant, depth } => depth > 0,
        // a name that may go on starts with a letter
        Buffer::Command { label, scopes, depth, trailing } => label@.len() > 0 && txt_ok(label@),
        _ => true,
    }
}

/// text added to the buffer
pub open spec fn buf_pushed(o: Buffer, f: Buffer, t: Seq<char>) -> bool {
    match (o, f) {
        (Buffer::Text { content }, Buffer::Text { content: c2 }) => c2@ =~= content@ + t,
        (Buffer::Scope { content, variant, depth }, Buffer::Scope { content: c2, variant: v2, depth: d2 }) => c2@
            =~= content@ + t && variant == v2 && depth == d2,
        (
            Buffer::Command { label, scopes, depth, trailing },
            Buffer::Command { label: l2, scopes: s2, depth: d2, trailing: t2 },
        ) => {
            &&& depth == d2
            &&& trailing == t2
            &&& if scopes@.len() == 0 {
                s2@.len() == 0 && l2@ =~= label@ + t
            } else {
                &&& label == l2
                &&& s2@.len() == scopes@.len()
                &&& s2@.drop_last() =~= scopes@.drop_last()
                &&& s2@.last().0@ =~= scopes@.last().0@ + t
                &&& s2@.last().1 == scopes@.last().1
                &&& s2@.last().2 == scopes@.last().2
            }
        },
        _ => false,
    }
}

/// the text of one argument
pub open spec fn p_arg(c: Arg) -> Seq<char> {
    c.2@ + (seq![sv_open(c.1)] + c.0@ + seq![sv_close(c.1)])
}

pub proof fn lemma_nl_one(c: char)
    ensures nl(seq![c]) == if c == '\n' { 1nat } else { 0nat },
{
    assert(seq![c] =~= Seq::<char>::empty().push(c));
}

pub proof fn lemma_p_arg(a: Seq<Arg>, k: int)
    requires 0 <= k < a.len(),
    ensures
        p_args(a.take(k + 1)) == p_args(a.take(k)) + p_arg(a[k]),
        nl(p_arg(a[k])) == nl(a[k].2@) + nl(a[k].0@),
        nl(p_args(a.take(k + 1))) == nl(p_args(a.take(k))) + nl(a[k].2@) + nl(a[k].0@),
        nl(p_args(a.take(k + 1))) <= nl(p_args(a)),
        p_args(a.take(k + 1)).len() <= p_args(a).len(),
        a[k].0@.len() + 2 <= p_args(a).len(),
    decreases a.len() - k,
{
    assert(a.take(k + 1) =~= a.take(k).push(a[k]));
    lemma_p_args_push(a.take(k), a[k]);
    lemma_nl_one(sv_open(a[k].1));
    lemma_nl_one(sv_close(a[k].1));
    lemma_nl_add(p_args(a.take(k)), p_arg(a[k]));
    lemma_nl_add(a[k].2@, seq![sv_open(a[k].1)] + a[k].0@ + seq![sv_close(a[k].1)]);
    lemma_nl_add(seq![sv_open(a[k].1)] + a[k].0@, seq![sv_close(a[k].1)]);
    lemma_nl_add(seq![sv_open(a[k].1)], a[k].0@);
    if k + 1 < a.len() {
        lemma_p_arg(a, k + 1);
    } else {
        assert(a.take(k + 1) =~= a);
    }
}

pub proof fn lemma_empty()
    ensures
        r_list(Seq::empty()) == Seq::<char>::empty(),
        r_args(Seq::empty()) == Seq::<char>::empty(),
        p_args(Seq::empty()) == Seq::<char>::empty(),
        dn_list(Seq::empty()),
        dn_args(Seq::empty()),
        w_list(Seq::empty()),
        w_args(Seq::empty()),
        ok_list(Seq::empty()),
        ok_args(Seq::empty()),
        num(Seq::empty()),
        lex(Seq::empty()) == (Lex { out: Seq::empty(), esc: false, com: false }),
{
}

// ---- the empty cases

pub broadcast proof fn lemma_r_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] r_list(c) == Seq::<char>::empty(),
{
}

pub broadcast proof fn lemma_r_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] r_args(c) == Seq::<char>::empty(),
{
}

pub broadcast proof fn lemma_ok_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] ok_list(c),
{
}

pub broadcast proof fn lemma_ok_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] ok_args(c),
{
}

pub broadcast proof fn lemma_dn_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] dn_list(c),
{
}

pub broadcast proof fn lemma_dn_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] dn_args(c),
{
}

pub broadcast proof fn lemma_w_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] w_list(c),
{
}

pub broadcast proof fn lemma_w_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] w_args(c),
{
}

pub broadcast proof fn lemma_bad_list_empty(c: Seq<Chunk>, e: InternalError)
    requires c.len() == 0,
    ensures #[trigger] bad_list(c, e) == false,
{
}

pub broadcast proof fn lemma_bad_args_empty(c: Seq<(String, Scope)>, e: InternalError)
    requires c.len() == 0,
    ensures #[trigger] bad_args(c, e) == false,
{
}

pub broadcast proof fn lemma_num_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] num(c),
{
}

pub broadcast proof fn lemma_p_args_empty(c: Seq<Arg>)
    requires c.len() == 0,
    ensures #[trigger] p_args(c) == Seq::<char>::empty(),
{
}

pub broadcast proof fn lemma_lex_empty(c: Seq<char>)
    requires c.len() == 0,
    ensures #[trigger] lex(c) == (Lex { out: Seq::empty(), esc: false, com: false }),
{
}

pub broadcast proof fn lemma_add_one(s: Seq<char>, c: char)
    ensures #[trigger] (s + seq![c]) == s.push(c),
{
    assert(s + seq![c] =~= s.push(c));
}

/// whether what is pushed ends up at the end of the text held
pub open spec fn buf_open(b: Buffer) -> bool {
    match b {
        Buffer::Text { content } => true,
        Buffer::Scope { content, variant, depth } => depth > 0,
        Buffer::Command { label, scopes, depth, trailing } => trailing@.len() == 0 && (scopes@.len() == 0 <==> depth == 0),
    }
}


pub broadcast proof fn lemma_args_clean_last(s: Seq<Arg>)
    requires s.len() > 0,
    ensures #[trigger] args_clean(s) == (args_clean(s.drop_last()) && clean((#[trigger] s.last()).0@)),
{
    if args_clean(s.drop_last()) && clean(s.last().0@) {
        assert forall|i: int| 0 <= i < s.len() implies clean((#[trigger] s[i]).0@) by {
            if i < s.len() - 1 {
                assert(s.drop_last()[i] == s[i]);
            }
        }
    }
    if args_clean(s) {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies clean((#[trigger] s.drop_last()[i]).0@) by {
            assert(s.drop_last()[i] == s[i]);
        }
    }
}


// ---- texts, one character at a time

pub broadcast proof fn lemma_txt_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] txt_ok(s),
{
}

pub broadcast proof fn lemma_txt_push(s: Seq<char>, c: char)
    ensures #[trigger] txt_ok(s.push(c)) == (txt_ok(s) && !special(c)),
{
    if txt_ok(s.push(c)) {
        assert(s.push(c)[s.len() as int] == c);
        assert forall|i: int| 0 <= i < s.len() implies !special(#[trigger] s[i]) by {
            assert(s.push(c)[i] == s[i]);
        }
    }
}

pub broadcast proof fn lemma_w_text_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] w_text(s),
{
}

pub broadcast proof fn lemma_w_text_push(s: Seq<char>, c: char)
    ensures #[trigger] w_text(s.push(c)) == (w_text(s) && (!special(c) || is_close(c))),
{
    if w_text(s.push(c)) {
        assert(s.push(c)[s.len() as int] == c);
        assert forall|i: int| 0 <= i < s.len() implies !special(#[trigger] s[i]) || is_close(s[i]) by {
            assert(s.push(c)[i] == s[i]);
        }
    }
}

pub broadcast proof fn lemma_w_text_add(a: Seq<char>, b: Seq<char>)
    ensures w_text(a) && w_text(b) ==> #[trigger] w_text(a + b),
{
}

/// names of commands
pub broadcast proof fn lemma_label(s: Seq<char>)
    ensures #[trigger] label_ok(s) == (s.len() == 1 || txt_ok(s)),
{
}

pub broadcast proof fn lemma_clean_strip(s: Seq<char>)
    ensures #[trigger] clean(s) ==> strip(s) == s,
{
}

pub broadcast proof fn lemma_strip(s: Seq<char>)
    ensures #[trigger] strip(s) == (if lex(s).esc { lex(s).out.push('\\') } else { lex(s).out }),
{
}

pub broadcast proof fn lemma_args_clean_at(s: Seq<Arg>, i: int)
    requires args_clean(s), 0 <= i < s.len(),
    ensures #![trigger args_clean(s), s[i]] clean(s[i].0@),
{
}

pub broadcast proof fn lemma_args_clean_empty(s: Seq<Arg>)
    requires s.len() == 0,
    ensures #[trigger] args_clean(s),
{
}

pub broadcast proof fn lemma_txt_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] txt_ok(a + b) == (txt_ok(a) && txt_ok(b)),
{
    if txt_ok(a + b) {
        assert forall|i: int| 0 <= i < a.len() implies !special(#[trigger] a[i]) by {
            assert((a + b)[i] == a[i]);
        }
        assert forall|i: int| 0 <= i < b.len() implies !special(#[trigger] b[i]) by {
            assert((a + b)[a.len() + i] == b[i]);
        }
    }
}





pub broadcast proof fn lemma_t_command_open(l: Seq<char>, s: Seq<Arg>)
    ensures (#[trigger] t_command_open(l, s)).len() >= 2 + s.last().0@.len(),
{
}

pub broadcast proof fn lemma_dn_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] dn_list(a + b) ==> dn_list(a),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dn_list_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_dn_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] dn_args(a + b) == (dn_args(a) && dn_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_dn_args_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_w_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] w_list(a + b) == (w_list(a) && w_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_w_list_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_w_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] w_args(a + b) == (w_args(a) && w_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_w_args_add(a, b.drop_last());
    }
}

pub proof fn lemma_w_text_pct(s: Seq<char>)
    requires w_text(s),
    ensures !s.contains('%'),
{
}

/// texts without special characters hold no comments
pub proof fn lemma_txt_clean(s: Seq<char>)
    ensures
        txt_ok(s) ==> clean(s) && lex(s) == (Lex { out: s, esc: false, com: false }),
    decreases s.len(),
{
    if s.len() > 0 && txt_ok(s) {
        lemma_txt_push(s.drop_last(), s.last());
        assert(s =~= s.drop_last().push(s.last()));
        lemma_txt_clean(s.drop_last());
    } else if s.len() == 0 {
        assert(lex(s).out =~= s);
    }
}

// ---- what the parser makes of a text: the whole grammar, as a function

/// a chunk without its line
pub ghost enum Nd {
    Txt(Seq<char>),
    Cmd(Seq<char>, Seq<NdArg>),
    Grp(ScopeVariant, Seq<Nd>),
}

/// an argument: blanks before it, its brackets, its chunks
pub ghost struct NdArg {
    pub pre: Seq<char>,
    pub var: ScopeVariant,
    pub body: Seq<Nd>,
}

pub closed spec fn nd_variant(v: ChunkVariant) -> Nd
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => Nd::Txt(s@),
        ChunkVariant::Command(c) => Nd::Cmd(c.label@, nd_args(c.arguments@)),
        ChunkVariant::Scope(s) => Nd::Grp(s.variant, nd_list(s.chunks@)),
    }
}

pub closed spec fn nd_list(c: Seq<Chunk>) -> Seq<Nd>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        nd_list(c.drop_last()).push(nd_variant(c.last().variant))
    }
}

pub closed spec fn nd_args(c: Seq<(String, Scope)>) -> Seq<NdArg>
    decreases c,
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        nd_args(c.drop_last()).push(NdArg { pre: c.last().0@, var: c.last().1.variant, body: nd_list(c.last().1.chunks@) })
    }
}

pub broadcast proof fn def_nd_variant(v: ChunkVariant)
    ensures
        #[trigger] nd_variant(v) == (match v {
            ChunkVariant::Text(s) => Nd::Txt(s@),
            ChunkVariant::Command(c) => Nd::Cmd(c.label@, nd_args(c.arguments@)),
            ChunkVariant::Scope(s) => Nd::Grp(s.variant, nd_list(s.chunks@)),
        }),
{
}

pub broadcast proof fn lemma_nd_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] nd_list(a.push(c)) == nd_list(a).push(nd_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_nd_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures
        #[trigger] nd_args(a.push(c)) == nd_args(a).push(
            NdArg { pre: c.0@, var: c.1.variant, body: nd_list(c.1.chunks@) },
        ),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_nd_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] nd_list(c) == Seq::<Nd>::empty(),
{
}

pub broadcast proof fn lemma_nd_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] nd_args(c) == Seq::<NdArg>::empty(),
{
}

/// a fault: its line, counted from the first line of the text, and its kind
pub ghost struct PErr {
    pub line: int,
    pub kind: EKind,
}

pub type PRes<T> = Result<T, PErr>;

/// the error says so
pub open spec fn says(e: crate::Error, p: PErr) -> bool {
    e.line == p.line && ekind(e.raw_type) == p.kind
}

/// an argument that is read
pub ghost struct PA {
    pub pre: Seq<char>,
    pub var: ScopeVariant,
    pub body: Seq<char>,
}

/// what is being read: a text; a group; a command with arguments and the blanks behind them
pub ghost enum PB {
    Txt(Seq<char>),
    Grp(ScopeVariant, Seq<char>, nat),
    Cmd(Seq<char>, Seq<PA>, nat, Seq<char>),
}

pub ghost struct PS {
    pub out: Seq<Nd>,
    pub buf: PB,
    /// the line in which what is being read started
    pub bl: int,
}

pub open spec fn pa(a: Arg) -> PA {
    PA { pre: a.2@, var: a.1, body: a.0@ }
}

pub closed spec fn pb_args(s: Seq<Arg>) -> Seq<PA> {
    Seq::new(s.len(), |i: int| pa(s[i]))
}

pub open spec fn pb(b: Buffer) -> PB {
    match b {
        Buffer::Text { content } => PB::Txt(content@),
        Buffer::Scope { content, variant, depth } => PB::Grp(variant, content@, depth as nat),
        Buffer::Command { label, scopes, depth, trailing } => PB::Cmd(label@, pb_args(scopes@), depth as nat, trailing@),
    }
}

/// more text for what is being read
pub closed spec fn pb_push(b: PB, t: Seq<char>) -> PB {
    match b {
        PB::Txt(s) => PB::Txt(s + t),
        PB::Grp(v, s, d) => PB::Grp(v, s + t, d),
        PB::Cmd(l, a, d, r) => if a.len() == 0 {
            PB::Cmd(l + t, a, d, r)
        } else {
            PB::Cmd(l, a.drop_last().push(PA { body: a.last().body + t, ..a.last() }), d, r)
        },
    }
}

/// line breaks in the arguments
pub closed spec fn nl_args(a: Seq<PA>) -> nat
    decreases a.len(),
{
    if a.len() == 0 {
        0
    } else {
        nl_args(a.drop_last()) + nl(a.last().pre) + nl(a.last().body)
    }
}

/// the text of a group or argument, at most `n` characters long with its brackets
pub closed spec fn p_sub(x: Seq<char>, n: nat) -> PRes<Seq<Nd>>
    decreases n, 0int, 0int,
{
    if x.len() < n {
        p_doc(x)
    } else {
        Ok(Seq::empty())
    }
}

/// the arguments of a command
pub closed spec fn p_fargs(off: nat, a: Seq<PA>, n: nat) -> PRes<Seq<NdArg>>
    decreases n, 1int, a.len(),
{
    if a.len() == 0 {
        Ok(Seq::empty())
    } else {
        match p_fargs(off, a.drop_last(), n) {
            Err(e) => Err(e),
            Ok(x) => match p_sub(a.last().body, n) {
                Err(e) => Err(PErr { line: e.line + off + nl_args(a.drop_last()) + nl(a.last().pre), kind: e.kind }),
                Ok(l) => Ok(x.push(NdArg { pre: a.last().pre, var: a.last().var, body: l })),
            },
        }
    }
}

/// what is being read is complete: the chunks it makes
pub closed spec fn p_flush(b: PB, n: nat) -> PRes<Seq<Nd>>
    decreases n, 2int, 0int,
{
    match b {
        PB::Txt(s) => if s.len() == 0 { Ok(Seq::empty()) } else { Ok(seq![Nd::Txt(s)]) },
        PB::Grp(v, s, d) => if d != 0 {
            Err(PErr { line: 1, kind: EKind::UnclosedScope(v) })
        } else {
            match p_sub(s, n) {
                Err(e) => Err(e),
                Ok(l) => Ok(seq![Nd::Grp(v, l)]),
            }
        },
        PB::Cmd(l, a, d, t) => if d != 0 {
            Err(PErr { line: 1, kind: EKind::UnclosedArgument(a.last().var) })
        } else {
            match p_fargs(nl(l), a, n) {
                Err(e) => Err(e),
                Ok(x) => Ok(seq![Nd::Cmd(l, x)]),
            }
        },
    }
}

/// its last bracket closed
pub open spec fn shut(b: PB) -> PB {
    match b {
        PB::Txt(s) => b,
        PB::Grp(v, s, d) => PB::Grp(v, s, 0),
        PB::Cmd(l, a, d, t) => PB::Cmd(l, a, 0, t),
    }
}

pub open spec fn p_out(st: PS, fl: PRes<Seq<Nd>>) -> PRes<Seq<Nd>> {
    match fl {
        Ok(x) => Ok(st.out + x),
        Err(e) => Err(PErr { line: e.line + st.bl - 1, kind: e.kind }),
    }
}

/// a command that starts with `c`, the character after the backslash: a name goes on only if it starts with a letter
pub open spec fn p_name(out: Seq<Nd>, c: char, line: int) -> PS {
    if alpha(c) {
        PS { out, buf: PB::Cmd(seq![c], Seq::empty(), 0, Seq::empty()), bl: line - if c == '\n' { 1int } else { 0 } }
    } else {
        PS { out: out.push(Nd::Cmd(seq![c], Seq::empty())), buf: PB::Txt(Seq::empty()), bl: line }
    }
}

pub open spec fn esc_char(c: char, esc: bool) -> Seq<char> {
    if esc { seq!['\\'].push(c) } else { seq![c] }
}

/// one more character: `c`, escaped or not, in line `line` (the one after it, if it is a line break);
/// `fl` is what is being read, if it is complete now
pub open spec fn p_step(st: PS, c: char, esc: bool, line: int, fl: PRes<Seq<Nd>>) -> PRes<PS> {
    match st.buf {
        PB::Txt(t) => if esc {
            match p_out(st, fl) {
                Err(e) => Err(e),
                Ok(out) => Ok(p_name(out, c, line)),
            }
        } else if is_open(c) {
            match p_out(st, fl) {
                Err(e) => Err(e),
                Ok(out) => Ok(PS { out, buf: PB::Grp(sv_of(c), Seq::empty(), 1), bl: line }),
            }
        } else {
            Ok(PS { buf: pb_push(st.buf, seq![c]), ..st })
        },
        PB::Grp(v, t, d) => if esc {
            Ok(PS { buf: pb_push(pb_push(st.buf, seq!['\\']), seq![c]), ..st })
        } else if c == sv_open(v) {
            Ok(PS { buf: pb_push(PB::Grp(v, t, d + 1), seq![c]), ..st })
        } else if c == sv_close(v) {
            if d > 1 {
                Ok(PS { buf: pb_push(PB::Grp(v, t, (d - 1) as nat), seq![c]), ..st })
            } else {
                match p_out(st, fl) {
                    Err(e) => Err(e),
                    Ok(out) => Ok(PS { out, buf: PB::Txt(Seq::empty()), bl: line }),
                }
            }
        } else {
            Ok(PS { buf: pb_push(st.buf, seq![c]), ..st })
        },
        PB::Cmd(l, a, d, t) => if d != 0 {
            if esc {
                Ok(PS { buf: pb_push(pb_push(st.buf, seq!['\\']), seq![c]), ..st })
            } else if c == sv_open(a.last().var) {
                Ok(PS { buf: pb_push(PB::Cmd(l, a, d + 1, t), seq![c]), ..st })
            } else if c == sv_close(a.last().var) {
                if d > 1 {
                    Ok(PS { buf: pb_push(PB::Cmd(l, a, (d - 1) as nat, t), seq![c]), ..st })
                } else {
                    Ok(PS { buf: PB::Cmd(l, a, 0, t), ..st })
                }
            } else {
                Ok(PS { buf: pb_push(st.buf, seq![c]), ..st })
            }
        } else if esc {
            match p_out(st, fl) {
                Err(e) => Err(e),
                Ok(out) => Ok(p_name(if t.len() == 0 { out } else { out.push(Nd::Txt(t)) }, c, line)),
            }
        } else if is_open(c) {
            Ok(PS { buf: PB::Cmd(l, a.push(PA { pre: t, var: sv_of(c), body: Seq::empty() }), 1, Seq::empty()), ..st })
        } else if ws(c) {
            Ok(PS { buf: PB::Cmd(l, a, 0, t.push(c)), ..st })
        } else if t.len() > 0 {
            match p_out(st, fl) {
                Err(e) => Err(e),
                Ok(out) => Ok(PS { out, buf: PB::Txt(t.push(c)), bl: line - nl(t) }),
            }
        } else if is_close(c) {
            Err(PErr { line, kind: EKind::UnexpectedClosing(sv_of_close(c)) })
        } else if a.len() > 0 {
            match p_out(st, fl) {
                Err(e) => Err(e),
                Ok(out) => Ok(PS { out, buf: PB::Txt(seq![c]), bl: line }),
            }
        } else {
            Ok(PS { buf: pb_push(st.buf, seq![c]), ..st })
        },
    }
}

/// after the characters `s`, in a text of `n`
pub closed spec fn p_run(s: Seq<char>, n: nat) -> PRes<PS>
    decreases n, 3int, s.len(),
{
    if s.len() == 0 {
        Ok(PS { out: Seq::empty(), buf: PB::Txt(Seq::empty()), bl: 1 })
    } else {
        match p_run(s.drop_last(), n) {
            Err(e) => Err(e),
            Ok(st) => p_char(st, s.last(), lex(s.drop_last()), 1 + nl(s) as int, p_flush(shut(st.buf), n)),
        }
    }
}

/// comments and the backslash itself are passed over
pub open spec fn p_char(st: PS, c: char, l: Lex, line: int, fl: PRes<Seq<Nd>>) -> PRes<PS> {
    if c != '\n' && (l.com || ((c == '%' || c == '\\') && !l.esc)) {
        Ok(st)
    } else {
        p_step(st, c, l.esc, line, fl)
    }
}

/// at the end of the text
pub open spec fn p_fin(st: PS, esc: bool, fl: PRes<Seq<Nd>>) -> PRes<Seq<Nd>> {
    match p_out(st, fl) {
        Err(e) => Err(e),
        Ok(out) => {
            let o2 = match st.buf {
                PB::Cmd(l, a, d, t) => if t.len() > 0 { out.push(Nd::Txt(t)) } else { out },
                _ => out,
            };
            Ok(if esc { o2.push(Nd::Cmd(Seq::empty(), Seq::empty())) } else { o2 })
        },
    }
}

/// what a text parses to, or the first fault in it
pub closed spec fn p_doc(s: Seq<char>) -> PRes<Seq<Nd>>
    decreases s.len(), 4int, 0int,
{
    match p_run(s, s.len()) {
        Err(e) => Err(e),
        Ok(st) => p_fin(st, lex(s).esc, p_flush(st.buf, s.len())),
    }
}

pub broadcast proof fn lemma_p_run_empty(s: Seq<char>, n: nat)
    requires s.len() == 0,
    ensures #[trigger] p_run(s, n) == PRes::<PS>::Ok(PS { out: Seq::empty(), buf: PB::Txt(Seq::empty()), bl: 1 }),
{
}

pub broadcast proof fn lemma_p_run_push(s: Seq<char>, c: char, n: nat)
    ensures
        #[trigger] p_run(s.push(c), n) == (match p_run(s, n) {
            Err(e) => Err(e),
            Ok(st) => p_char(st, c, lex(s), 1 + nl(s.push(c)) as int, p_flush(shut(st.buf), n)),
        }),
{
    assert(s.push(c).drop_last() =~= s);
}

/// a fault that is found stays the first one
pub proof fn lemma_p_stop(s: Seq<char>, k: int, n: nat)
    requires 0 <= k <= s.len(),
    ensures p_run(s.take(k), n) is Err ==> p_run(s, n) == p_run(s.take(k), n),
    decreases s.len() - k,
{
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        lemma_p_stop(s, k + 1, n);
    } else {
        assert(s.take(k) =~= s);
    }
}

pub proof fn lemma_p_doc(s: Seq<char>)
    ensures
        p_doc(s) == (match p_run(s, s.len()) {
            Err(e) => Err(e),
            Ok(st) => p_fin(st, lex(s).esc, p_flush(st.buf, s.len())),
        }),
{
}

pub broadcast proof fn lemma_p_flush_txt(s: Seq<char>, n: nat)
    ensures
        #[trigger] p_flush(PB::Txt(s), n) == (if s.len() == 0 {
            PRes::<Seq<Nd>>::Ok(Seq::empty())
        } else {
            Ok(seq![Nd::Txt(s)])
        }),
{
}

pub open spec fn p_flush_def(b: PB, n: nat) -> PRes<Seq<Nd>> {
    match b {
        PB::Txt(s) => if s.len() == 0 { Ok(Seq::empty()) } else { Ok(seq![Nd::Txt(s)]) },
        PB::Grp(v, s, d) => if d != 0 {
            Err(PErr { line: 1, kind: EKind::UnclosedScope(v) })
        } else {
            match p_sub(s, n) {
                Err(e) => Err(e),
                Ok(l) => Ok(seq![Nd::Grp(v, l)]),
            }
        },
        PB::Cmd(l, a, d, t) => if d != 0 {
            Err(PErr { line: 1, kind: EKind::UnclosedArgument(a.last().var) })
        } else {
            match p_fargs(nl(l), a, n) {
                Err(e) => Err(e),
                Ok(x) => Ok(seq![Nd::Cmd(l, x)]),
            }
        },
    }
}

pub proof fn lemma_p_flush(b: PB, n: nat)
    ensures p_flush(b, n) == p_flush_def(b, n),
{
}

pub broadcast proof fn lemma_p_sub(x: Seq<char>, n: nat)
    requires x.len() < n,
    ensures #[trigger] p_sub(x, n) == p_doc(x),
{
}

pub open spec fn p_fargs_def(off: nat, a: Seq<PA>, k: int, n: nat) -> PRes<Seq<NdArg>> {
    match p_fargs(off, a.take(k), n) {
        Err(e) => Err(e),
        Ok(x) => match p_sub(a[k].body, n) {
            Err(e) => Err(PErr { line: e.line + off + nl_args(a.take(k)) + nl(a[k].pre), kind: e.kind }),
            Ok(l) => Ok(x.push(NdArg { pre: a[k].pre, var: a[k].var, body: l })),
        },
    }
}

pub proof fn lemma_p_fargs(off: nat, a: Seq<PA>, k: int, n: nat)
    requires 0 <= k < a.len(),
    ensures
        p_fargs(off, a.take(k + 1), n) == p_fargs_def(off, a, k, n),
        nl_args(a.take(k + 1)) == nl_args(a.take(k)) + nl(a[k].pre) + nl(a[k].body),
{
    assert(a.take(k + 1).drop_last() =~= a.take(k));
}

pub open spec fn p_fargs_from(off: nat, a: Seq<PA>, k: int, n: nat) -> PRes<Seq<NdArg>> {
    if p_fargs(off, a.take(k), n) is Err { p_fargs(off, a.take(k), n) } else { p_fargs(off, a, n) }
}

pub proof fn lemma_p_fargs_stop(off: nat, a: Seq<PA>, k: int, n: nat)
    requires 0 <= k <= a.len(),
    ensures p_fargs(off, a, n) == p_fargs_from(off, a, k, n),
    decreases a.len() - k,
{
    if k < a.len() {
        lemma_p_fargs(off, a, k, n);
        lemma_p_fargs_stop(off, a, k + 1, n);
    } else {
        assert(a.take(k) =~= a);
    }
}

/// the same number of line breaks
pub proof fn lemma_nl_args(s: Seq<Arg>)
    ensures nl_args(pb_args(s)) == nl(p_args(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last();
        assert(s =~= a.push(s.last()));
        lemma_nl_args(a);
        lemma_pb_args_push(a, s.last());
        lemma_p_args_push(a, s.last());
        assert(pb_args(s).drop_last() =~= pb_args(a));
        lemma_nl_one(sv_open(s.last().1));
        lemma_nl_one(sv_close(s.last().1));
    }
}

pub proof fn lemma_nl_args_take(s: Seq<Arg>, k: int)
    requires 0 <= k < s.len(),
    ensures
        nl_args(pb_args(s).take(k)) == nl(p_args(s.take(k))),
{
    lemma_nl_args(s.take(k));
    assert(pb_args(s.take(k)) =~= pb_args(s).take(k));
}

pub proof fn lemma_p_fargs_none(off: nat, a: Seq<PA>, n: nat)
    ensures p_fargs(off, a.take(0), n) == PRes::<Seq<NdArg>>::Ok(Seq::empty()), nl_args(a.take(0)) == 0,
{
}

pub broadcast proof fn lemma_pb_args(s: Seq<Arg>)
    ensures
        (#[trigger] pb_args(s)).len() == s.len(),
        s.len() > 0 ==> pb_args(s).last() == pa(s.last()),
        s.len() == 0 ==> pb_args(s) == Seq::<PA>::empty(),
{
    assert(s.len() == 0 ==> pb_args(s) =~= Seq::<PA>::empty());
}

pub proof fn lemma_pb_arg(s: Seq<Arg>, k: int)
    requires 0 <= k < s.len(),
    ensures pb_args(s)[k] == pa(s[k]),
{
}

pub broadcast proof fn lemma_pb_args_push(s: Seq<Arg>, a: Arg)
    ensures #[trigger] pb_args(s.push(a)) == pb_args(s).push(pa(a)),
{
    assert(pb_args(s.push(a)) =~= pb_args(s).push(pa(a)));
}

pub broadcast proof fn lemma_pb_pushed(o: Buffer, f: Buffer, t: Seq<char>)
    requires #[trigger] buf_pushed(o, f, t),
    ensures pb(f) == pb_push(pb(o), t),
{
    match (o, f) {
        (
            Buffer::Command { label, scopes, depth, trailing },
            Buffer::Command { label: l2, scopes: s2, depth: d2, trailing: t2 },
        ) => {
            if scopes@.len() > 0 {
                let a = pb_args(scopes@);
                let b = pb_args(s2@);
                assert forall|i: int| 0 <= i < b.len() - 1 implies b[i] == a[i] by {
                    assert(s2@.drop_last()[i] == scopes@.drop_last()[i]);
                }
                assert(b =~= a.drop_last().push(PA { body: a.last().body + t, ..a.last() }));
            } else {
                assert(pb_args(s2@) =~= pb_args(scopes@));
            }
        },
        _ => {},
    }
}

pub broadcast proof fn lemma_nd_add_one(s: Seq<Nd>, c: Nd)
    ensures #[trigger] (s + seq![c]) == s.push(c),
{
    assert(s + seq![c] =~= s.push(c));
}

/// text that starts anew
pub broadcast proof fn lemma_pb_push_new(b: PB, t: Seq<char>)
    ensures
        b is Txt ==> #[trigger] pb_push(b, t) == PB::Txt(b->Txt_0 + t),
        b is Txt && b->Txt_0.len() == 0 ==> pb_push(b, t) == PB::Txt(t),
        b is Cmd && b->Cmd_1.len() == 0 && b->Cmd_0.len() == 0 ==> pb_push(b, t) == PB::Cmd(t, b->Cmd_1, b->Cmd_2, b->Cmd_3),
{
    match b {
        PB::Txt(s) => {
            assert(s.len() == 0 ==> s + t =~= t);
        },
        PB::Cmd(l, a, d, r) => {
            assert(l.len() == 0 ==> l + t =~= t);
        },
        _ => {},
    }
}

// ---- every group and argument of a parsed document is what its own text parses to

pub open spec fn self_parse(c: Seq<Chunk>) -> bool {
    clean(r_list(c)) && p_doc(r_list(c)) == PRes::<Seq<Nd>>::Ok(nd_list(c))
}

pub closed spec fn pf_variant(v: ChunkVariant) -> bool
    decreases v,
{
    match v {
        ChunkVariant::Text(s) => true,
        ChunkVariant::Command(c) => pf_args(c.arguments@),
        ChunkVariant::Scope(s) => pf_list(s.chunks@) && self_parse(s.chunks@),
    }
}

pub closed spec fn pf_list(c: Seq<Chunk>) -> bool
    decreases c,
{
    c.len() == 0 || (pf_list(c.drop_last()) && pf_variant(c.last().variant))
}

pub closed spec fn pf_args(c: Seq<(String, Scope)>) -> bool
    decreases c,
{
    c.len() == 0 || (pf_args(c.drop_last()) && pf_list(c.last().1.chunks@) && self_parse(c.last().1.chunks@))
}

pub broadcast proof fn def_pf_variant(v: ChunkVariant)
    ensures
        #[trigger] pf_variant(v) == (match v {
            ChunkVariant::Text(s) => true,
            ChunkVariant::Command(c) => pf_args(c.arguments@),
            ChunkVariant::Scope(s) => pf_list(s.chunks@) && self_parse(s.chunks@),
        }),
{
}

pub broadcast proof fn lemma_pf_list_push(a: Seq<Chunk>, c: Chunk)
    ensures #[trigger] pf_list(a.push(c)) == (pf_list(a) && pf_variant(c.variant)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_pf_args_push(a: Seq<(String, Scope)>, c: (String, Scope))
    ensures #[trigger] pf_args(a.push(c)) == (pf_args(a) && pf_list(c.1.chunks@) && self_parse(c.1.chunks@)),
{
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn lemma_pf_list_empty(c: Seq<Chunk>)
    requires c.len() == 0,
    ensures #[trigger] pf_list(c),
{
}

pub broadcast proof fn lemma_pf_args_empty(c: Seq<(String, Scope)>)
    requires c.len() == 0,
    ensures #[trigger] pf_args(c),
{
}

pub broadcast proof fn lemma_pf_list_add(a: Seq<Chunk>, b: Seq<Chunk>)
    ensures #[trigger] pf_list(a + b) == (pf_list(a) && pf_list(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_pf_list_add(a, b.drop_last());
    }
}

pub broadcast proof fn lemma_pf_args_add(a: Seq<(String, Scope)>, b: Seq<(String, Scope)>)
    ensures #[trigger] pf_args(a + b) == (pf_args(a) && pf_args(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_pf_args_add(a, b.drop_last());
    }
}

// ---- no two texts next to each other

pub open spec fn ends_txt(l: Seq<Nd>) -> bool {
    l.len() > 0 && l.last() is Txt
}

pub open spec fn na(l: Seq<Nd>) -> bool {
    forall|i: int| #![trigger l[i]] 0 < i < l.len() ==> !(l[i - 1] is Txt && l[i] is Txt)
}

proof fn lemma_na_push(l: Seq<Nd>, x: Nd)
    requires na(l), !(x is Txt && ends_txt(l)),
    ensures na(l.push(x)),
{
    let m = l.push(x);
    assert forall|i: int| #![trigger m[i]] 0 < i < m.len() implies !(m[i - 1] is Txt && m[i] is Txt) by {
        if i < l.len() {
            assert(l[i] == m[i]);
        }
    }
}

/// what is complete is one chunk, a text only if a text was being read
proof fn lemma_na_flush(l: Seq<Nd>, b: PB, n: nat)
    requires na(l), b is Txt ==> !ends_txt(l), p_flush(b, n) is Ok,
    ensures
        na(l + p_flush(b, n)->Ok_0),
        !(b is Txt) ==> !ends_txt(l + p_flush(b, n)->Ok_0),
{
    let x = p_flush(b, n)->Ok_0;
    if x.len() == 0 {
        assert(l + x =~= l);
    } else {
        assert(x.len() == 1);
        assert(l + x =~= l.push(x[0]));
        lemma_na_push(l, x[0]);
    }
}

proof fn lemma_na_run(s: Seq<char>, n: nat)
    ensures
        match p_run(s, n) {
            Err(e) => true,
            Ok(st) => na(st.out) && (st.buf is Txt ==> !ends_txt(st.out)),
        },
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_na_run(s.drop_last(), n);
        match p_run(s.drop_last(), n) {
            Err(e) => {},
            Ok(st) => {
                let b = shut(st.buf);
                if p_flush(b, n) is Ok {
                    lemma_na_flush(st.out, b, n);
                    let out = st.out + p_flush(b, n)->Ok_0;
                    lemma_na_push(out, Nd::Cmd(seq![s.last()], Seq::empty()));
                    if st.buf is Cmd {
                        let o2 = out.push(Nd::Txt(st.buf->Cmd_3));
                        lemma_na_push(out, Nd::Txt(st.buf->Cmd_3));
                        lemma_na_push(o2, Nd::Cmd(seq![s.last()], Seq::empty()));
                    }
                }
            },
        }
    }
}

pub proof fn lemma_na(s: Seq<char>)
    ensures p_doc(s) is Ok ==> na(p_doc(s)->Ok_0),
{
    let n = s.len();
    lemma_na_run(s, n);
    match p_run(s, n) {
        Err(e) => {},
        Ok(st) => {
            if p_flush(st.buf, n) is Ok {
                lemma_na_flush(st.out, st.buf, n);
                let out = st.out + p_flush(st.buf, n)->Ok_0;
                lemma_na_push(out, Nd::Cmd(Seq::empty(), Seq::empty()));
                if st.buf is Cmd {
                    let o2 = out.push(Nd::Txt(st.buf->Cmd_3));
                    lemma_na_push(out, Nd::Txt(st.buf->Cmd_3));
                    lemma_na_push(o2, Nd::Cmd(Seq::empty(), Seq::empty()));
                }
            }
        },
    }
}

/// text without special characters is read as it is
pub proof fn lemma_p_doc_txt(s: Seq<char>)
    requires txt_ok(s),
    ensures p_doc(s) is Ok,
{
    lemma_p_run_txt(s, s.len());
    lemma_txt_clean(s);
}

proof fn lemma_p_run_txt(s: Seq<char>, n: nat)
    requires txt_ok(s),
    ensures p_run(s, n) == PRes::<PS>::Ok(PS { out: Seq::empty(), buf: PB::Txt(s), bl: 1 }),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s =~= Seq::<char>::empty());
    } else {
        let d = s.drop_last();
        assert(s =~= d.push(s.last()));
        lemma_txt_push(d, s.last());
        lemma_p_run_txt(d, n);
        lemma_txt_clean(d);
        lemma_add_one(d, s.last());
    }
}

/// has to fail: otherwise the lemmas in scope contradict each other
#[verifier::spinoff_prover]
#[verifier::rlimit(3)]
proof fn v_canary_ast1()
    ensures false,
{
}
