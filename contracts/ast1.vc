@fn Error::new
@ensures
[C14] r.line == line && r.r#type == r#type

# ------------------------------------------------------------ ScopeVariant

@fn ast1::ScopeVariant::open
@ensures
[C01,C03] r == sv_open(*self)

@fn ast1::ScopeVariant::close
@ensures
[C01,C03] r == sv_close(*self)

@fn ast1::ScopeVariant::is_opening
@ensures
[C01,C04] r == is_open(c)

@fn ast1::ScopeVariant::is_closing
@ensures
[C01,C04] r == is_close(c)

@fn ast1::ScopeVariant::from_opening
@requires
[C13] is_open(c)
@ensures
[C01] sv_open(r) == c
[C01] r == sv_of(c)

@fn ast1::ScopeVariant::from_closing
@requires
[C13] is_close(c)
@ensures
[C14] sv_close(r) == c
[C14] r == sv_of_close(c)

@fn ast1::ScopeVariant::from_ast2
@ensures
[C07] r == crate::ast2_spec::sv_12(value)

# ------------------------------------------------------------------- Chunk

@fn ast1::Chunk::new
@ensures
[C04] r is Ok <==> ok_variant(variant)
[C04] r is Ok ==> r->Ok_0 == (Chunk { line_no, variant })
[C04] r is Err ==> bad_variant(variant, r->Err_0)

@fn ast1::Chunk::new_unchecked
@ensures
[C01,C02] r == (Chunk { line_no, variant })

@fn ast1::Chunk::line_no
@ensures
[] r == self.line_no

@fn ast1::Chunk::variant
@ensures
[] *r == self.variant

@fn ast1::Chunk::variant_mut
@ensures
[] *r == old(self).variant
[] final(self).variant == *final(r)
[] final(self).line_no == old(self).line_no

@fn ast1::Chunk::variant_owned
@ensures
[] r == self.variant

@fn ast1::Chunk::decompose
@ensures
[] r.0 == self.line_no
[] r.1 == self.variant

@fn ast1::Chunk::fmt
@ensures
[C01,C03] r is Ok && final(f)@ == old(f)@ + r_chunk(*self)
@fdecreases self, 0int

@fn ast1::Chunk::v_to_string
@ensures
[C01,C03] r@ == r_chunk(*self)
@fdecreases self, 1int

@fn ast1::Chunk::validate
@ensures
[C04] r is Ok <==> ok_chunk(*self)
[C04] r is Err ==> bad_chunk(*self, r->Err_0)
@fdecreases self

@fn ast1::Chunk::lines
@requires
[C03] nl(r_chunk(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_chunk(*self))
@fdecreases self

# ------------------------------------------------------------ ChunkVariant

@fn ast1::ChunkVariant::fmt
@ensures
[C01,C03] r is Ok && final(f)@ == old(f)@ + r_variant(*self)
@fdecreases self, 0int

@fn ast1::ChunkVariant::v_to_string
@ensures
[C01,C03] r@ == r_variant(*self)
@fdecreases self, 1int

@fn ast1::ChunkVariant::validate
@ensures
[C04] r is Ok <==> ok_variant(*self)
[C04] r is Err ==> bad_variant(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] txt_ok(it0.done())

@fn ast1::ChunkVariant::lines
@requires
[C03] nl(r_variant(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_variant(*self))
@fdecreases self

# ----------------------------------------------------------------- Command

@fn ast1::Command::new
@ensures
[C04] r is Ok <==> label_ok(label@) && ok_args(arguments@)
[C04] r is Ok ==> r->Ok_0 == (Command { label, arguments })
[C04] r is Err ==> bad_command(Command { label, arguments }, r->Err_0)

@fn ast1::Command::new_unchecked
@ensures
[C01] r == (Command { label, arguments })

@fn ast1::Command::label
@ensures
[] *r == self.label

@fn ast1::Command::arguments
@ensures
[] *r == self.arguments

@fn ast1::Command::label_owned
@ensures
[] r == self.label

@fn ast1::Command::arguments_owned
@ensures
[] r == self.arguments

@fn ast1::Command::decompose
@ensures
[] r.0 == self.label
[] r.1 == self.arguments

@fn ast1::Command::fmt
@ensures
[C01,C03] r is Ok && final(f)@ == old(f)@ + r_command(*self)
@fdecreases self, 0int
@entry
proof { reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']); }
let ghost o = f@;
@exit
proof { assert(f@ =~= o + r_command(*self)); }
@loop K0
@inv
[C01,C03] acc0@ == r_args(k0.done())
@end
proof { assert(acc0@ =~= r_args(k0.done())); }

@fn ast1::Command::v_to_string
@ensures
[C01,C03] r@ == r_command(*self)
@fdecreases self, 1int

@fn ast1::Command::validate
@ensures
[C04] r is Ok <==> ok_command(*self)
[C04] r is Err ==> bad_command(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] txt_ok(it0.done())
@loop L1
@inv
[] ok_args(it1.done())

@fn ast1::Command::lines
@requires
[C03] nl(r_command(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_command(*self))
@fdecreases self
@loop L0
@inv
[C03] total == nl(self.label@) + nl(r_args(it0.done()))
@pre
proof {
    assert(nl(r_command(*self)) == nl(self.label@) + nl(r_args(self.arguments@)));
}
@top
proof {
    assert(nl(r_args(self.arguments@)) == nl(r_args(it0.done())) + nl(r_args(it0.rest())));
    assert(nl(r_args(it0.done())) == nl(r_args(it0.done().drop_last())) + nl(prec@) + nl(r_scope(*arg)));
}

# ------------------------------------------------------------------- Scope

@fn ast1::Scope::new
@ensures
[C04] r is Ok <==> ok_list(chunks@)
[C04] r is Ok ==> r->Ok_0 == (Scope { chunks, variant })
[C04] r is Err ==> bad_list(chunks@, r->Err_0)

@fn ast1::Scope::new_unchecked
@ensures
[C01] r == (Scope { chunks, variant })

@fn ast1::Scope::chunks
@ensures
[] *r == self.chunks

@fn ast1::Scope::chunks_owned
@ensures
[] r == self.chunks

@fn ast1::Scope::variant
@ensures
[] r == self.variant

@fn ast1::Scope::decompose
@ensures
[] r.0 == self.chunks
[] r.1 == self.variant

@fn ast1::Scope::fmt
@ensures
[C01,C03] r is Ok && final(f)@ == old(f)@ + r_scope(*self)
@fdecreases self, 0int
@entry
let ghost o = f@;
@exit
proof { assert(f@ =~= o + r_scope(*self)); }

@fn ast1::Scope::v_to_string
@ensures
[C01,C03] r@ == r_scope(*self)
@fdecreases self, 1int

@fn ast1::Scope::validate
@ensures
[C04] r is Ok <==> ok_scope(*self)
[C04] r is Err ==> bad_scope(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] ok_list(it0.done())

@fn ast1::Scope::lines
@requires
[C03] nl(r_scope(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_scope(*self))
@fdecreases self
@loop K0
@inv
[C03] acc0 == nl(r_list(k0.done()))

# ---------------------------------------------------------------- Document

@fn ast1::Document::default
@ensures
[] r.0@ == Seq::<Chunk>::empty()

@fn ast1::Document::chunks
@ensures
[] *r == self.0

@fn ast1::Document::chunks_owned
@ensures
[] r == self.0

@fn ast1::Document::new
@requires
[C13] nl(r_list(chunks@)) < u32::MAX
@ensures
[C04] r is Ok <==> num(chunks@) && ok_list(chunks@)
[C04] r is Ok ==> r->Ok_0.0 == chunks
[C04] r is Err ==> bad_list(chunks@, r->Err_0) || bad_num(chunks@, r->Err_0)

@fn ast1::Document::new_unchecked
@ensures
[C01] r.0 == chunks

@fn ast1::Document::push
@requires
[C13] end_line(old(self).0@) < u32::MAX
@ensures
[C05] r is Ok <==> ok_variant(variant)
[C05] r is Err ==> *final(self) == *old(self) && bad_variant(variant, r->Err_0)
[C05] r is Ok ==> is_pushed(old(self).0@, Chunk { line_no: end_line(old(self).0@) as u32, variant }, final(self).0@)

@fn ast1::Document::push_unchecked
@requires
[C13] end_line(old(self).0@) < u32::MAX
@ensures
[C05] is_pushed(old(self).0@, Chunk { line_no: end_line(old(self).0@) as u32, variant }, final(self).0@)

@fn ast1::Document::push_chunk
@requires
[C13] end_line(old(self).0@) < u32::MAX
@ensures
[C05] r is Ok <==> ok_chunk(chunk) && chunk.line_no == end_line(old(self).0@)
[C05] r is Err ==> *final(self) == *old(self)
[C05] r is Ok ==> is_pushed(old(self).0@, chunk, final(self).0@)

@fn ast1::Document::push_chunk_unchecked
@ensures
[C05] is_pushed(old(self).0@, chunk, final(self).0@)

@fn ast1::Document::fmt
@ensures
[C01,C03] r is Ok && final(f)@ == old(f)@ + r_list(self.0@)

@fn ast1::Document::v_to_string
@ensures
[C01,C03] r@ == r_list(self.0@)

@fn ast1::Document::validate
@requires
[C13] nl(r_list(self.0@)) < u32::MAX
@ensures
[C04] r is Ok <==> num(self.0@) && ok_list(self.0@)
[C04] r is Err ==> bad_list(self.0@, r->Err_0) || bad_num(self.0@, r->Err_0)
@loop L0
@inv
[C04] expected_line == 1 + nl(r_list(it0.done()))
[C04] num(it0.done()) && ok_list(it0.done())
@top
proof { assert(self.0@.take(it0.done().len() - 1) =~= it0.done().drop_last()); }

@fn ast1::Document::lines
@requires
[C03] nl(r_list(self.0@)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_list(self.0@))
@loop K0
@inv
[C03] acc0 == nl(r_list(k0.done()))

# ------------------------------------------------------------- the parser

@fn ast1::Buffer::no_scope
@requires
[C13] *self is Command
@ensures
[C01] r == (self->Command_scopes@.len() == 0)

@fn ast1::Buffer::scope
@ensures
[C01] r is Scope && r->Scope_content@ == Seq::<char>::empty() && r->Scope_depth == 1 && r->Scope_variant == variant

@fn ast1::Buffer::command
@ensures
[C01] r is Command && r->Command_label@ == Seq::<char>::empty() && r->Command_scopes@ == Seq::<Arg>::empty()
&& r->Command_depth == 0 && r->Command_trailing@ == Seq::<char>::empty()

@fn ast1::Buffer::text
@ensures
[C01] r is Text && r->Text_content@ == Seq::<char>::empty()

@fn ast1::Buffer::push
@ensures
[C01] buf_pushed(*old(self), *final(self), seq![c])

@fn ast1::Buffer::push_str
@ensures
[C01] buf_pushed(*old(self), *final(self), s@)

@fn ast1::Buffer::push_scope
@requires
[C13] *old(self) is Command
@ensures
[C01] *final(self) is Command && (*final(self))->Command_depth == 1
[C01] (*final(self))->Command_label == (*old(self))->Command_label
[C01] (*final(self))->Command_trailing@ == Seq::<char>::empty()
[C01] (*final(self))->Command_scopes@.len() == (*old(self))->Command_scopes@.len() + 1
[C01] (*final(self))->Command_scopes@.drop_last() =~= (*old(self))->Command_scopes@
[C01] (*final(self))->Command_scopes@.last().0@ == Seq::<char>::empty()
[C01] (*final(self))->Command_scopes@.last().1 == variant
[C01] (*final(self))->Command_scopes@.last().2@ == (*old(self))->Command_trailing@
[C01] (*old(self))->Command_depth == 0 ==> pend_f(*final(self)) == (pend_f(*old(self)) + tr(*old(self))).push(sv_open(variant))
[C01] args_clean((*old(self))->Command_scopes@) ==> args_clean((*final(self))->Command_scopes@)
[C07,C14] pb_args((*final(self))->Command_scopes@) == pb_args((*old(self))->Command_scopes@).push(
PA { pre: (*old(self))->Command_trailing@, var: variant, body: Seq::empty() })
@exit
proof {
    let a = (*old(self))->Command_scopes@;
    let b = (*self)->Command_scopes@;
    assert(b.drop_last() =~= a);
    assert(b =~= b.drop_last().push(b.last()));
    assert(b.last().0@ =~= Seq::<char>::empty());
    assert(b.last().2@ =~= (*old(self))->Command_trailing@);
    assert(b == a.push(b.last()));
    lemma_pb_args_push(a, b.last());
    assert(pa(b.last()) == PA { pre: (*old(self))->Command_trailing@, var: variant, body: Seq::<char>::empty() });
    assert(pb_args(b) == pb_args(a).push(pa(b.last())));
    assert(clean(b.last().0@));
    assert forall|i: int| 0 <= i < b.len() && args_clean(a) implies clean((#[trigger] b[i]).0@) by {
        if i < b.len() - 1 {
            assert(b.drop_last()[i] == a[i]);
        }
    }
    lemma_push_scope((*self)->Command_label@, a, b.last());
}

@fn ast1::Document::from_str::flush
@split buffer
pend_f(*old(buffer)).len(), 1int
@attr #[verifier::rlimit(70)]
@requires
[C13] buf_ok(*old(buffer))
[C13] buffer_line_no + nl(pend_f(*old(buffer))) <= u32::MAX
[C13] buffer_line_no >= 1
[C13] pend_f(*old(buffer)).len() < u32::MAX
@ensures
[C01] r is Ok ==> r_list(final(chunks)@) == r_list(old(chunks)@) + pend_f(*old(buffer))
[C02] r is Ok && dn_list(old(chunks)@) && buffer_line_no == 1 + nl(r_list(old(chunks)@)) ==> dn_list(final(chunks)@)
[C15] r is Ok && w_list(old(chunks)@) ==> w_list(final(chunks)@)
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(pend_f(*old(buffer)))
[C07] r is Ok && pf_list(old(chunks)@) ==> pf_list(final(chunks)@)
[C07,C13] *old(buffer) is Text ==> r is Ok
[C07,C14] *old(buffer) is Text ==> nd_list(final(chunks)@) == if pend_f(*old(buffer)).len() == 0 { nd_list(old(chunks)@) } else {
nd_list(old(chunks)@).push(Nd::Txt(pend_f(*old(buffer)))) }
[C07,C13,C14] *old(buffer) is Command && (*old(buffer))->Command_scopes@.len() == 0 && (*old(buffer))->Command_depth == 0 ==>
r is Ok && nd_list(final(chunks)@) == nd_list(old(chunks)@).push(Nd::Cmd((*old(buffer))->Command_label@, Seq::empty()))
[C07,C14] r is Ok ==> forall|n: nat| n >= pend_f(*old(buffer)).len() ==>
(#[trigger] p_flush(pb(*old(buffer)), n)) is Ok && nd_list(final(chunks)@) == nd_list(old(chunks)@) + p_flush(pb(*old(buffer)), n)->Ok_0
[C14] r is Err ==> forall|n: nat| n >= pend_f(*old(buffer)).len() ==>
(#[trigger] p_flush(pb(*old(buffer)), n)) is Err && says(r->Err_0, p_flush(pb(*old(buffer)), n)->Err_0)
@fdecreases pend_f(*old(buffer)).len(), 0int
@entry
let ghost ob = *buffer;
let ghost oc = chunks@;
proof {
    assert forall|n: nat| true implies #[trigger] p_flush(pb(ob), n) == p_flush_def(pb(ob), n) by { lemma_p_flush(pb(ob), n); }
    lemma_empty();
    if ob is Command {
        lemma_nl_args(ob->Command_scopes@);
        assert(pb_args(ob->Command_scopes@).take(0).len() == 0);
        assert(pb_args(ob->Command_scopes@).take(ob->Command_scopes@.len() as int) =~= pb_args(ob->Command_scopes@));
        assert forall|n: nat| true implies #[trigger] p_fargs(nl(ob->Command_label@), pb_args(ob->Command_scopes@).take(0), n) == PRes::<Seq<NdArg>>::Ok(Seq::empty()) by { lemma_p_fargs_none(nl(ob->Command_label@), pb_args(ob->Command_scopes@), n); }
    }
    lemma_nl_one('\\');
    lemma_nl_len(pend_f(ob));
    if ob is Command {
        lemma_t_forms(ob->Command_label@, ob->Command_scopes@, ScopeVariant::Curly, Seq::empty());
        assert(ob->Command_scopes@.take(0) =~= Seq::<Arg>::empty());
        assert(ob->Command_scopes@.take(ob->Command_scopes@.len() as int) =~= ob->Command_scopes@);
    }
    if ob is Scope {
        lemma_t_forms(Seq::empty(), Seq::empty(), ob->Scope_variant, ob->Scope_content@);
        lemma_nl_one(sv_open(ob->Scope_variant));
        lemma_nl_one(sv_close(ob->Scope_variant));
    }
}
@loop L0
@inv
[C01] ix0 <= scopes@.len()
[C01] ob is Command
[C01] scopes@.len() == ob->Command_scopes@.len()
[C01] forall|j: int| 0 <= j < scopes@.len() ==> (#[trigger] scopes@[j]).0 == ob->Command_scopes@[j].0 && scopes@[j].1 == ob->Command_scopes@[j].1
[C01] forall|j: int| ix0 <= j < scopes@.len() ==> (#[trigger] scopes@[j]).2 == ob->Command_scopes@[j].2
[C01] r_args(arguments@) == p_args(ob->Command_scopes@.take(ix0 as int))
[C02] offset == nl(ob->Command_label@) + nl(p_args(ob->Command_scopes@.take(ix0 as int)))
[C02] dn_args(arguments@)
[C15] w_args(arguments@) && arguments@.len() == ix0
[C07] pf_args(arguments@)
[C07,C14] forall|n: nat| n >= pend_f(ob).len() ==>
#[trigger] p_fargs(nl(ob->Command_label@), pb_args(ob->Command_scopes@).take(ix0 as int), n) == PRes::<Seq<NdArg>>::Ok(nd_args(arguments@))
@top
proof {
    lemma_nl_args_take(ob->Command_scopes@, ix0 - 1);
    lemma_pb_arg(ob->Command_scopes@, ix0 - 1);
    assert forall|n: nat| true implies #[trigger] p_fargs(nl(ob->Command_label@), pb_args(ob->Command_scopes@).take(ix0 as int), n)
        == p_fargs_def(nl(ob->Command_label@), pb_args(ob->Command_scopes@), ix0 - 1, n) by {
        lemma_p_fargs(nl(ob->Command_label@), pb_args(ob->Command_scopes@), ix0 - 1, n);
    }
    assert forall|n: nat| true implies (#[trigger] p_fargs(nl(ob->Command_label@), pb_args(ob->Command_scopes@), n))
        == p_fargs_from(nl(ob->Command_label@), pb_args(ob->Command_scopes@), ix0 as int, n) by {
        lemma_p_fargs_stop(nl(ob->Command_label@), pb_args(ob->Command_scopes@), ix0 as int, n);
    }
    lemma_p_arg(ob->Command_scopes@, ix0 - 1);
}

@fn ast1::Document::from_str
@split &mut buffer
s@.len(), 3int
@attr #[verifier::rlimit(150)]
@attr #[verifier::auto_ext_equal()]
@requires
[C13] s@.len() < u32::MAX
@ensures
[C01] r is Ok ==> r_list(r->Ok_0.0@) == strip(s@)
[C02] r is Ok ==> dn_list(r->Ok_0.0@)
[C15] r is Ok ==> w_list(r->Ok_0.0@)
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(s@)
[C07,C13] txt_ok(s@) ==> r is Ok
[C07] r is Ok ==> pf_list(r->Ok_0.0@)
[C07,C14] r is Ok ==> p_doc(s@) == PRes::<Seq<Nd>>::Ok(nd_list(r->Ok_0.0@))
[C14] r is Err ==> p_doc(s@) is Err && says(r->Err_0, p_doc(s@)->Err_0)
@fdecreases s@.len(), 2int
@loop L0
@inv
[C01] escaped == lex(it0.done()).esc
[C01] comment == lex(it0.done()).com
[C01] tot(chunks@, buffer) == lex(it0.done()).out
[C02] line_no == 1 + nl(it0.done())
[C02] buffer_line_no == 1 + nl(r_list(chunks@))
[C02] dn_list(chunks@)
[C15] w_list(chunks@)
[C07] pf_list(chunks@)
[C01] buf_between(buffer)
[C07,C13] txt_ok(it0.done()) ==> buffer is Text && !escaped && !comment
[C07,C14] p_run(it0.done(), s@.len()) == PRes::<PS>::Ok(PS { out: nd_list(chunks@), buf: pb(buffer), bl: buffer_line_no as int })
@top
proof {
    lemma_p_doc(s@);
    lemma_p_stop(s@, it0.done().len() as int, s@.len());
    assert(s@.take(it0.done().len() as int) =~= it0.done());
    let d0 = it0.done().drop_last();
    lemma_lex_size(d0);
    lemma_lex_size(it0.done());
    lemma_nl_len(it0.done());
    assert(it0.done().len() <= s@.len());
    lemma_nl_one('\\');
    lemma_nl_one(c);
}
@end
proof {
    assert(tot(chunks@, buffer) == lex(it0.done()).out);
    if buffer is Command {
        assert(buffer->Command_label@.len() > 0 && txt_ok(buffer->Command_label@));
        assert(args_clean(buffer->Command_scopes@));
        assert(w_text(buffer->Command_trailing@));
    }
    if buffer is Scope {
        assert(clean(buffer->Scope_content@));
    }
    if buffer is Text {
        assert(w_text(buffer->Text_content@));
    }
}
@post
proof {
    lemma_p_doc(s@);
    lemma_lex_size(s@);
    lemma_nl_len(s@);
}

# ------------------------------------------ derive(PartialEq), written out

@fn ast1::Chunk::v_eq
@ensures
[C06,C14] r == crate::ast2_spec::same_chunk(*self, *o)
@fdecreases self

@fn ast1::ChunkVariant::v_eq
@ensures
[C06,C14] r == crate::ast2_spec::same_variant(*self, *o)
@fdecreases self
@entry
proof { crate::ast2_spec::lemma_same_variant(*self, *o); }

@fn ast1::Command::v_eq
@ensures
[C06,C14] r == (self.label@ == o.label@ && crate::ast2_spec::same_args(self.arguments@, o.arguments@))
@fdecreases self

@fn ast1::Scope::v_eq
@ensures
[C06,C14] r == (self.variant == o.variant && crate::ast2_spec::same_list(self.chunks@, o.chunks@))
@fdecreases self

@fn ast1::Document::v_eq
@ensures
[C06,C14] r == crate::ast2_spec::same_list(self.0@, o.0@)
@fdecreases self

@fn ast1::v_eq_vec_Chunk
@ensures
[C06,C14] r == crate::ast2_spec::same_list(a@, b@)
@fdecreases a
@entry
proof { crate::ast2_spec::lemma_same_each(a@, b@); }
@loop L0
@inv
[] a.len() == b.len() && i == it0.done().len()
[C06,C14] forall|j: int| 0 <= j < i ==> crate::ast2_spec::same_chunk(#[trigger] a@[j], b@[j])

@fn ast1::v_eq_vec_String_Scope
@ensures
[C06,C14] r == crate::ast2_spec::same_args(a@, b@)
@fdecreases a
@entry
proof { crate::ast2_spec::lemma_same_each_arg(a@, b@); }
@loop L0
@inv
[] a.len() == b.len() && i == it0.done().len()
[C06,C14] forall|j: int| 0 <= j < i ==> crate::ast2_spec::same_arg(#[trigger] a@[j], b@[j])
