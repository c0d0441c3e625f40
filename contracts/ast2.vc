# ------------------------------------------------------------ ScopeVariant

@fn ast2::ScopeVariant::open
@ensures
[C03,C06] r == sv_open(*self)

@fn ast2::ScopeVariant::close
@ensures
[C03,C06] r == sv_close(*self)

@fn ast2::ScopeVariant::from_ast1
@ensures
[C06] sv_12(r) == value

@fn ast2::ScopeVariant::from_ast3
@ensures
[C11] sv_32(r) == value

# ------------------------------------------------------------------- Chunk

@fn ast2::Chunk::new
@ensures
[C04] r is Ok <==> ok_variant(variant)
[C04] r is Ok ==> r->Ok_0 == (Chunk { line_no, variant })
[C04] r is Err ==> bad_variant(variant, r->Err_0)

@fn ast2::Chunk::new_unchecked
@ensures
[] r == (Chunk { line_no, variant })

@fn ast2::Chunk::line_no
@ensures
[] r == self.line_no

@fn ast2::Chunk::variant
@ensures
[] *r == self.variant

@fn ast2::Chunk::line_no_mut
@ensures
[] *r == old(self).line_no
[] final(self).line_no == *final(r)
[] final(self).variant == old(self).variant

@fn ast2::Chunk::variant_mut
@ensures
[] *r == old(self).variant
[] final(self).variant == *final(r)
[] final(self).line_no == old(self).line_no

@fn ast2::Chunk::variant_owned
@ensures
[] r == self.variant

@fn ast2::Chunk::decompose
@ensures
[] r.0 == self.line_no
[] r.1 == self.variant

@fn ast2::Chunk::fmt
@ensures
[C03,C06] r is Ok && final(f)@ == old(f)@ + r_chunk(*self)
@fdecreases self, 0int

@fn ast2::Chunk::v_to_string
@ensures
[C03,C06] r@ == r_chunk(*self)
@fdecreases self, 1int

@fn ast2::Chunk::validate
@ensures
[C04] r is Ok <==> ok_chunk(*self)
[C04] r is Err ==> bad_chunk(*self, r->Err_0)
@fdecreases self

@fn ast2::Chunk::lines
@requires
[C03] nl(r_chunk(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_chunk(*self))
@fdecreases self

# ------------------------------------------------------------ ChunkVariant

@fn ast2::ChunkVariant::fmt
@ensures
[C03,C06] r is Ok && final(f)@ == old(f)@ + r_variant(*self)
@fdecreases self, 0int

@fn ast2::ChunkVariant::v_to_string
@ensures
[C03,C06] r@ == r_variant(*self)
@fdecreases self, 1int

@fn ast2::ChunkVariant::validate
@ensures
[C04] r is Ok <==> ok_variant(*self)
[C04] r is Err ==> bad_variant(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] txt_ok(it0.done())

@fn ast2::ChunkVariant::lines
@requires
[C03] nl(r_variant(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_variant(*self))
@fdecreases self

# ----------------------------------------------------------------- Command

@fn ast2::Command::new
@ensures
[C04] r is Ok <==> ok_command(Command { label, arguments })
[C04] r is Ok ==> r->Ok_0 == (Command { label, arguments })
[C04] r is Err ==> bad_command(Command { label, arguments }, r->Err_0)

@fn ast2::Command::new_unchecked
@ensures
[] r == (Command { label, arguments })

@fn ast2::Command::label
@ensures
[] *r == self.label

@fn ast2::Command::arguments
@ensures
[] *r == self.arguments

@fn ast2::Command::label_owned
@ensures
[] r == self.label

@fn ast2::Command::arguments_owned
@ensures
[] r == self.arguments

@fn ast2::Command::decompose
@ensures
[] r.0 == self.label
[] r.1 == self.arguments

@fn ast2::Command::fmt
@ensures
[C03,C06] r is Ok && final(f)@ == old(f)@ + r_command(*self)
@fdecreases self, 0int
@entry
proof { reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']); }
let ghost o = f@;
@exit
proof { assert(f@ =~= o + r_command(*self)); }
@loop K0
@inv
[C03,C06] acc0@ == r_args(k0.done())
@end
proof { assert(acc0@ =~= r_args(k0.done())); }

@fn ast2::Command::v_to_string
@ensures
[C03,C06] r@ == r_command(*self)
@fdecreases self, 1int

@fn ast2::Command::validate
@ensures
[C04] r is Ok <==> ok_command(*self)
[C04] r is Err ==> bad_command(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] txt_ok(it0.done())
@loop L1
@inv
[] ok_args(it1.done())

@fn ast2::Command::lines
@requires
[C03] nl(r_command(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_command(*self))
@fdecreases self
@loop L0
@inv
[C03] total == nl(self.label@) + nl(r_args(it0.done()))
@pre
proof {
    assert(nl(r_command(*self)) == nl(self.label@) + nl(r_args(self.arguments@)));
}
@top
proof {
    assert(nl(r_args(self.arguments@)) == nl(r_args(it0.done())) + nl(r_args(it0.rest())));
    assert(nl(r_args(it0.done())) == nl(r_args(it0.done().drop_last())) + nl(prec@) + nl(r_scope(*arg)));
}

# ------------------------------------------------------------------- Scope

@fn ast2::Scope::new
@ensures
[C04] r is Ok <==> ok_list(chunks@)
[C04] r is Ok ==> r->Ok_0 == (Scope { chunks, variant })
[C04] r is Err ==> bad_list(chunks@, r->Err_0)

@fn ast2::Scope::new_unchecked
@ensures
[] r == (Scope { chunks, variant })

@fn ast2::Scope::chunks
@ensures
[] *r == self.chunks

@fn ast2::Scope::chunks_owned
@ensures
[] r == self.chunks

@fn ast2::Scope::variant
@ensures
[] r == self.variant

@fn ast2::Scope::decompose
@ensures
[] r.0 == self.chunks
[] r.1 == self.variant

@fn ast2::Scope::fmt
@ensures
[C03,C06] r is Ok && final(f)@ == old(f)@ + r_scope(*self)
@fdecreases self, 0int
@entry
let ghost o = f@;
@exit
proof { assert(f@ =~= o + r_scope(*self)); }

@fn ast2::Scope::v_to_string
@ensures
[C03,C06] r@ == r_scope(*self)
@fdecreases self, 1int

@fn ast2::Scope::validate
@ensures
[C04] r is Ok <==> ok_scope(*self)
[C04] r is Err ==> bad_scope(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] ok_list(it0.done())

@fn ast2::Scope::lines
@requires
[C03] nl(r_scope(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_scope(*self))
@fdecreases self
@loop K0
@inv
[C03] acc0 == nl(r_list(k0.done()))

# ------------------------------------------------------------- Environment

@fn ast2::Environment::new
@ensures
[C04] r is Ok <==> ok_env(Environment { label, arguments, content, prec_begin, prec_end })
[C04] r is Ok ==> r->Ok_0 == (Environment { label, arguments, content, prec_begin, prec_end })
[C04] r is Err ==> bad_env(Environment { label, arguments, content, prec_begin, prec_end }, r->Err_0)

@fn ast2::Environment::new_unchecked
@ensures
[] r == (Environment { label, arguments, content, prec_begin, prec_end })

@fn ast2::Environment::label
@ensures
[] *r == self.label

@fn ast2::Environment::decompose
@ensures
[] r.0 == self.label
[] r.1 == self.arguments
[] r.2 == self.content
[] r.3 == self.prec_begin
[] r.4 == self.prec_end

@fn ast2::Environment::fmt
@ensures
[C03,C06] r is Ok && final(f)@ == old(f)@ + r_env(*self)
@fdecreases self, 0int
@entry
let ghost o = f@;
@exit
proof { lemma_env_text(o, *self); }
@loop K0
@inv
[C03,C06] acc0@ == r_args(k0.done())
@end
proof { assert(acc0@ =~= r_args(k0.done())); }

@fn ast2::Environment::v_to_string
@ensures
[C03,C06] r@ == r_env(*self)
@fdecreases self, 1int

@fn ast2::Environment::validate
@ensures
[C04] r is Ok <==> ok_env(*self)
[C04] r is Err ==> bad_env(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] txt_ok(it0.done())
@loop L1
@inv
[] ok_args(it1.done())
@loop L2
@inv
[] ok_list(it2.done())

@fn ast2::Environment::lines
@requires
[C03] nl(r_env(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_env(*self))
@fdecreases self
@entry
proof {
    assert(nl(r_env(*self)) == 2 * nl(self.label@) + nl(self.prec_begin@) + nl(self.prec_end@) + nl(r_args(self.arguments@)) + nl(r_list(self.content@)));
}
@loop K1
@inv
[] acc1 == nl(k1.done())
@loop K2
@inv
[] acc1 == nl(self.prec_begin@) + nl(k2.done())
@loop L0
@inv
[C03] lines == 2 * nl(self.label@) + nl(self.prec_begin@) + nl(self.prec_end@) + nl(r_args(it0.done()))
@top
proof {
    assert(nl(r_args(self.arguments@)) == nl(r_args(it0.done())) + nl(r_args(it0.rest())));
    assert(nl(r_args(it0.done())) == nl(r_args(it0.done().drop_last())) + nl(prec@) + nl(r_scope(*arg)));
}
@loop L1
@inv
[C03] lines == 2 * nl(self.label@) + nl(self.prec_begin@) + nl(self.prec_end@) + nl(r_args(self.arguments@)) + nl(r_list(it1.done()))
@top
proof {
    assert(nl(r_list(self.content@)) == nl(r_list(it1.done())) + nl(r_list(it1.rest())));
}

# ---------------------------------------------------------------- Document

@fn ast2::Document::default
@ensures
[] r.0@ == Seq::<Chunk>::empty()

@fn ast2::Document::chunks
@ensures
[] *r == self.0

@fn ast2::Document::chunks_owned
@ensures
[] r == self.0

@fn ast2::Document::new
@requires
[C13] nl(r_list(chunks@)) < u32::MAX
@ensures
[C04] r is Ok <==> num(chunks@) && ok_list(chunks@)
[C04] r is Ok ==> r->Ok_0.0 == chunks
[C04] r is Err ==> bad_list(chunks@, r->Err_0) || bad_num(chunks@, r->Err_0)

@fn ast2::Document::new_unchecked
@ensures
[] r.0 == chunks

@fn ast2::Document::push
@requires
[C13] end_line(old(self).0@) < u32::MAX
@ensures
[C05] r is Ok <==> ok_variant(variant)
[C05] r is Err ==> *final(self) == *old(self) && bad_variant(variant, r->Err_0)
[C05] r is Ok ==> is_pushed(old(self).0@, Chunk { line_no: end_line(old(self).0@) as u32, variant }, final(self).0@)

@fn ast2::Document::push_unchecked
@requires
[C13] end_line(old(self).0@) < u32::MAX
@ensures
[C05] is_pushed(old(self).0@, Chunk { line_no: end_line(old(self).0@) as u32, variant }, final(self).0@)

@fn ast2::Document::push_chunk
@requires
[C13] end_line(old(self).0@) < u32::MAX
@ensures
[C05] r is Ok <==> ok_chunk(chunk) && chunk.line_no == end_line(old(self).0@)
[C05] r is Err ==> *final(self) == *old(self)
[C05] r is Ok ==> is_pushed(old(self).0@, chunk, final(self).0@)

@fn ast2::Document::push_chunk_unchecked
@ensures
[C05] is_pushed(old(self).0@, chunk, final(self).0@)

@fn ast2::Document::fmt
@ensures
[C03,C06] r is Ok && final(f)@ == old(f)@ + r_list(self.0@)

@fn ast2::Document::v_to_string
@ensures
[C03,C06] r@ == r_list(self.0@)

@fn ast2::Document::validate
@requires
[C13] nl(r_list(self.0@)) < u32::MAX
@ensures
[C04] r is Ok <==> num(self.0@) && ok_list(self.0@)
[C04] r is Err ==> bad_list(self.0@, r->Err_0) || bad_num(self.0@, r->Err_0)
@loop L0
@inv
[C04] expected_line == 1 + nl(r_list(it0.done()))
[C04] num(it0.done()) && ok_list(it0.done())
@top
proof { assert(self.0@.take(it0.done().len() - 1) =~= it0.done().drop_last()); }

@fn ast2::Document::lines
@requires
[C03] nl(r_list(self.0@)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_list(self.0@))
@loop K0
@inv
[C03] acc0 == nl(r_list(k0.done()))

# --------------------------------------------------- from stage 2 to stage 1

@fn ast2::Chunk::into_chunks::lines
@requires
[C13] s@.len() < u32::MAX
@ensures
[C07] r == nl(s@)
@entry
proof {
    lemma_nl_len(s@);
}
@loop K0
@inv
[] acc0 == nl(k0.done())
@top
proof {
    assert(nl(s@) == nl(k0.done()) + nl(k0.rest()));
}

@fn ast2::Chunk::into_chunks
@attr #[verifier::rlimit(60)]
@requires
[C13] lab_variant(self.variant) && dn_variant(self.variant)
[C13] self.line_no >= 1 && self.line_no + nl(r_variant(self.variant)) <= u32::MAX
[C13] r_variant(self.variant).len() < u32::MAX
@ensures
[C07] r1_list(r@) == r_variant(self.variant)
[C07] dnf1(r@, self.line_no as int)
[C07] nbe_variant(self.variant) ==> f1_list(r@) == f_variant(self.variant)
[C07] nbe_variant(self.variant) ==> np1_list(r@)
@fdecreases self.variant, 0int
@entry
let ghost v = self.variant;
let ghost ln = self.line_no;
proof {
    if v is Environment {
        let e = v->Environment_0;
        lemma_back(e.label@);
        lemma_nl_len(r_env(e));
        assert(r_variant(v) == r_env(e));
    }
}
@exit
proof {
    assert(v_ret@ =~= Seq::empty().push(v_ret@[0]));
    assert(r1_list(v_ret@) =~= r_variant(v));
    assert(f1_list(v_ret@) =~= f1_variant(v_ret@[0].variant));
}
@loop K1
@inv
[C07] acc1 == nl(r_args(k1.done()))
@top
proof {
    assert(nl(r_args(g_k1)) == nl(r_args(k1.done())) + nl(r_args(k1.rest())));
    assert(nl(r_args(k1.done())) == nl(r_args(k1.done().drop_last())) + nl(x2.0@) + nl(r_scope(x2.1)));
    assert(Seq::<char>::empty() + r_scope(x2.1) =~= r_scope(x2.1));
}
@loop K3
@inv
[C07] acc3@ == k3.done()
@loop K4
@inv
[C07] acc3@.len() == 1 + k4.done().len()
[C07] acc3@[0] == g_k3[0]
[C07] r1_args(acc3@.skip(1)) == r_args(k4.done())
[C07] dn1_args(acc3@)
[C07] nbe_args(g_k4) ==> f1_args(acc3@.skip(1)) == f_args(k4.done())
[C07] nbe_args(g_k4) ==> np1_args(acc3@.skip(1))
@top
proof {
    assert(r_args(g_k4) == r_args(k4.done()) + r_args(k4.rest()));
    assert(dn_args(k4.done()));
    assert(lab_args(k4.done()));
}
let ghost b0 = acc3@;
@end
proof {
    assert(acc3@.skip(1) =~= b0.skip(1).push(acc3@.last()));
}
@loop K2
@inv
[C07] acc2@ == k2.done()
@loop K5
@pre
proof {
    let e = v->Environment_0;
    assert(g_k2 =~= Seq::empty().push(g_k2[0]));
    lemma_mark_begin(g_k2[0].variant->Command_0, e.prec_begin@, e.label@, label);
    assert(r1_list(g_k2) =~= t_begin(e.prec_begin@, e.label@) + r_args(e.arguments@));
    assert(nl(r1_list(g_k2)) == nl(e.prec_begin@) + nl(e.label@) + nl(r_args(e.arguments@)));
}
@inv
[C07] r1_list(acc2@) == r1_list(g_k2) + r_list(k5.done())
[C07] dnf1(acc2@, ln as int)
[C07] nbe_list(g_k5) ==> f1_list(acc2@) == f1_list(g_k2) + f_list(k5.done())
[C07] nbe_list(g_k5) && nbe_args(v->Environment_0.arguments@) ==> np1_list(acc2@)
@top
proof {
    assert(nl(r_list(g_k5)) == nl(r_list(k5.done())) + nl(r_list(k5.rest())));
    assert(r_list(g_k5) == r_list(k5.done()) + r_list(k5.rest()));
    assert(dn_list(k5.done()));
    assert(lab_list(k5.done()));
}
@loop K6
@pre
let ghost a0 = acc2@;
@inv
[C07] acc2@ == a0 + k6.done()
@loop K7
@pre
let ghost a1 = acc2@;
@inv
[C07] acc2@ == a1 + k7.done()
@post
proof {
    let e = v->Environment_0;
    assert(g_k7 =~= Seq::empty().push(g_k7[0]));
    lemma_mark_end(g_k7[0].variant->Command_0, e.prec_end@, e.label@, label);
    assert(r1_list(g_k7) =~= t_end(e.prec_end@, e.label@));
    assert(r1_list(acc2@) =~= r_env(e));
    assert(nbe_variant(v) ==> f1_list(acc2@) =~= f_variant(v));
}

@fn ast2::Scope::to_ast1_scope
@requires
[C13] lab_scope(self) && dn_scope(self)
[C13] r_scope(self).len() < u32::MAX
@ensures
[C07] r1_scope(r) == r_scope(self)
[C07] dn1_scope(r)
[C07] r.variant == sv_12(self.variant)
[C07] nbe_scope(self) ==> f1_list(r.chunks@) == f_list(self.chunks@)
[C07] nbe_scope(self) ==> np1_scope(r)
@fdecreases self, 0int
@entry
proof {
    lemma_nl_len(r_scope(self));
}
@loop K0
@inv
[C07] r1_list(acc0@) == r_list(k0.done())
[C07] dnf1(acc0@, 1)
[C07] nbe_list(g_k0) ==> f1_list(acc0@) == f_list(k0.done())
[C07] nbe_list(g_k0) ==> np1_list(acc0@)
@top
proof {
    assert(nl(r_list(g_k0)) == nl(r_list(k0.done())) + nl(r_list(k0.rest())));
    assert(r_list(g_k0) == r_list(k0.done()) + r_list(k0.rest()));
    assert(dn_list(k0.done()));
    assert(lab_list(k0.done()));
}
@loop K1
@pre
let ghost a0 = acc0@;
@inv
[C07] acc0@ == a0 + k1.done()

@fn ast2::Scope::v_conv
@requires
[C13] lab_scope(self) && dn_scope(self)
[C13] r_scope(self).len() < u32::MAX
@ensures
[C07] r1_scope(r) == r_scope(self)
[C07] dn1_scope(r)
[C07] nbe_scope(self) ==> f1_list(r.chunks@) == f_list(self.chunks@)
[C07] nbe_scope(self) ==> np1_scope(r)
@fdecreases self, 1int

@fn ast1::Scope::from
@requires
[C13] crate::ast2_spec::lab_scope(value) && crate::ast2_spec::dn_scope(value)
[C13] crate::ast2_spec::r_scope(value).len() < u32::MAX
@ensures
[C07] r_scope(r) == crate::ast2_spec::r_scope(value)
[C07] dn_scope(r)
[C07] crate::ast2_spec::nbe_scope(value) ==> crate::ast2_spec::f1_list(r.chunks@) == crate::ast2_spec::f_list(value.chunks@)
[C07] crate::ast2_spec::nbe_scope(value) ==> crate::ast2_spec::np1_scope(r)
@fdecreases value, 0int
@entry
proof {
    lemma_nl_len(crate::ast2_spec::r_scope(value));
    crate::ast2_spec::lemma_conv_entry(value);
}
@exit
proof {
    crate::ast2_spec::lemma_conv_exit(value, v_ret);
}
@loop K0
@inv
[C07] r_list(acc0@) == crate::ast2_spec::r_list(k0.done())
[C07] crate::ast2_spec::dnf1(acc0@, 1)
[C07] crate::ast2_spec::nbe_list(g_k0) ==> crate::ast2_spec::f1_list(acc0@) == crate::ast2_spec::f_list(k0.done())
[C07] crate::ast2_spec::nbe_list(g_k0) ==> crate::ast2_spec::np1_list(acc0@)
@top
let ghost d0 = k0.done();
proof {
    assert(g_k0 =~= d0 + k0.rest());
    crate::ast2_spec::lemma_conv_pre(g_k0, d0, k0.rest());
}
@loop K1
@pre
let ghost a0 = acc0@;
@inv
[C07] acc0@ == a0 + k1.done()
@end
proof {
    assert(acc0@ =~= a0 + k1.done());
}
@post
proof {
    assert(k1.done() =~= g_k1);
    assert(d0.drop_last().push(d0.last()) =~= d0);
    crate::ast2_spec::lemma_conv_add(g_k0, d0, a0, g_k1);
}

@fn ast2::Command::v_conv
@requires
[C13] lab_command(self) && dn_command(self)
[C13] r_command(self).len() < u32::MAX
@ensures
[C07] r1_command(r) == r_command(self)
[C07] dn1_command(r)
[C07] nbe_command(self) ==> f1_command(r) == seq![It::Cmd(self.label@, f_args(self.arguments@))]
[C07] nbe_command(self) ==> np1_command(r)
@fdecreases self, 1int

@fn ast1::Command::from
@requires
[C13] crate::ast2_spec::lab_command(value) && crate::ast2_spec::dn_command(value)
[C13] crate::ast2_spec::r_command(value).len() < u32::MAX
@ensures
[C07] r_command(r) == crate::ast2_spec::r_command(value)
[C07] dn_command(r)
[C07] crate::ast2_spec::nbe_command(value) ==> crate::ast2_spec::f1_command(r) == seq![crate::ast2_spec::It::Cmd(value.label@, crate::ast2_spec::f_args(value.arguments@))]
[C07] crate::ast2_spec::nbe_command(value) ==> crate::ast2_spec::np1_command(r)
@fdecreases value, 0int
@entry
broadcast use crate::ast2_spec::group_ast2;
@loop K0
@inv
[C07] r_args(acc0@) == crate::ast2_spec::r_args(k0.done())
[C07] dn_args(acc0@)
[C07] crate::ast2_spec::nbe_args(g_k0) ==> crate::ast2_spec::f1_args(acc0@) == crate::ast2_spec::f_args(k0.done())
[C07] crate::ast2_spec::nbe_args(g_k0) ==> crate::ast2_spec::np1_args(acc0@)
@top
proof {
    assert(crate::ast2_spec::r_args(g_k0) == crate::ast2_spec::r_args(k0.done()) + crate::ast2_spec::r_args(k0.rest()));
    assert(crate::ast2_spec::dn_args(k0.done()));
    assert(crate::ast2_spec::lab_args(k0.done()));
}

@fn ast1::Document::push_into_unchecked
@requires
[C13] crate::ast2_spec::lab_variant(original.variant) && crate::ast2_spec::dn_variant(original.variant)
[C13] original.line_no >= 1 && original.line_no + nl(crate::ast2_spec::r_variant(original.variant)) <= u32::MAX
[C13] crate::ast2_spec::r_variant(original.variant).len() < u32::MAX
@ensures
[C07] r_list(final(self).0@) == r_list(old(self).0@) + crate::ast2_spec::r_variant(original.variant)
[C07] crate::ast2_spec::dnf1(old(self).0@, 1) && original.line_no == 1 + nl(r_list(old(self).0@)) ==> crate::ast2_spec::dnf1(final(self).0@, 1)
[C07] crate::ast2_spec::nbe_variant(original.variant) && crate::ast2_spec::sep(crate::ast2_spec::f1_list(old(self).0@) + crate::ast2_spec::f_variant(original.variant)) ==> crate::ast2_spec::f1_list(final(self).0@) == crate::ast2_spec::f1_list(old(self).0@) + crate::ast2_spec::f_variant(original.variant)
[C07] crate::ast2_spec::nbe_variant(original.variant) && crate::ast2_spec::np1_list(old(self).0@) ==> crate::ast2_spec::np1_list(final(self).0@)
@entry
broadcast use crate::ast2_spec::group_ast2;
let ghost o = self.0@;
let ghost v = original.variant;
@loop K0
@inv
[C07] r_list(self.0@) == r_list(o) + r_list(k0.done())
[C07] crate::ast2_spec::dnf1(o, 1) && original.line_no == 1 + nl(r_list(o)) ==> crate::ast2_spec::dnf1(self.0@, 1)
[C07] crate::ast2_spec::nbe_variant(v) && crate::ast2_spec::sep(crate::ast2_spec::f1_list(o) + crate::ast2_spec::f_variant(v)) ==> crate::ast2_spec::f1_list(self.0@) == crate::ast2_spec::f1_list(o) + crate::ast2_spec::f1_list(k0.done())
[C07] crate::ast2_spec::nbe_variant(v) && crate::ast2_spec::np1_list(o) ==> crate::ast2_spec::np1_list(self.0@)
@top
let ghost b = self.0@;
let ghost x = k0.done().last();
let ghost d0 = k0.done().drop_last();
proof {
    assert(k0.done() =~= d0.push(x));
    assert(g_k0 =~= d0.push(x) + k0.rest());
    assert(crate::ast2_spec::dnf1(d0.push(x), original.line_no as int));
    let f = crate::ast2_spec::f1_list(o);
    let fd = crate::ast2_spec::f1_list(d0);
    let fx = crate::ast2_spec::f1_variant(x.variant);
    let fr = crate::ast2_spec::f1_list(k0.rest());
    assert(crate::ast2_spec::f1_list(g_k0) == fd + fx + fr);
    if crate::ast2_spec::nbe_variant(v) && crate::ast2_spec::sep(f + crate::ast2_spec::f_variant(v)) {
        assert(f + (fd + fx + fr) =~= (f + fd + fx) + fr);
        crate::ast2_spec::lemma_sep_prefix(f + fd + fx, fr);
    }
}
@end
proof {
    crate::ast2_spec::lemma_pushed1(b, x, self.0@);
    assert(r_list(self.0@) =~= r_list(o) + r_list(k0.done()));
    assert(crate::ast2_spec::f1_list(o) + crate::ast2_spec::f1_list(d0) + crate::ast2_spec::f1_variant(x.variant) =~= crate::ast2_spec::f1_list(o) + (crate::ast2_spec::f1_list(d0) + crate::ast2_spec::f1_variant(x.variant)));
}

@fn ast1::Document::from
@requires
[C13] crate::ast2_spec::lab_list(value.0@) && crate::ast2_spec::dn_list(value.0@)
[C13] crate::ast2_spec::r_list(value.0@).len() < u32::MAX
@ensures
[C07] r_list(r.0@) == crate::ast2_spec::r_list(value.0@)
[C07] dn_list(r.0@)
[C07] crate::ast2_spec::nbe_list(value.0@) && crate::ast2_spec::sep(crate::ast2_spec::f_list(value.0@)) ==> crate::ast2_spec::f1_list(r.0@) == crate::ast2_spec::f_list(value.0@)
[C07] crate::ast2_spec::nbe_list(value.0@) ==> crate::ast2_spec::np1_list(r.0@)
@entry
broadcast use crate::ast2_spec::group_ast2;
proof {
    lemma_nl_len(crate::ast2_spec::r_list(value.0@));
}
@loop L0
@inv
[C07] r_list(out.0@) == crate::ast2_spec::r_list(it0.done())
[C07] crate::ast2_spec::dnf1(out.0@, 1)
[C07] crate::ast2_spec::nbe_list(g_it0) && crate::ast2_spec::sep(crate::ast2_spec::f_list(g_it0)) ==> crate::ast2_spec::f1_list(out.0@) == crate::ast2_spec::f_list(it0.done())
[C07] crate::ast2_spec::nbe_list(g_it0) ==> crate::ast2_spec::np1_list(out.0@)
@top
proof {
    assert(nl(crate::ast2_spec::r_list(g_it0)) == nl(crate::ast2_spec::r_list(it0.done())) + nl(crate::ast2_spec::r_list(it0.rest())));
    assert(crate::ast2_spec::r_list(g_it0) == crate::ast2_spec::r_list(it0.done()) + crate::ast2_spec::r_list(it0.rest()));
    assert(crate::ast2_spec::f_list(g_it0) == crate::ast2_spec::f_list(it0.done()) + crate::ast2_spec::f_list(it0.rest()));
    assert(crate::ast2_spec::dn_list(it0.done()));
    assert(crate::ast2_spec::lab_list(it0.done()));
    if crate::ast2_spec::sep(crate::ast2_spec::f_list(g_it0)) {
        crate::ast2_spec::lemma_sep_prefix(crate::ast2_spec::f_list(it0.done()), crate::ast2_spec::f_list(it0.rest()));
    }
}

@fn ast2::Document::v_conv
@requires
[C13] lab_list(self.0@) && dn_list(self.0@)
[C13] r_list(self.0@).len() < u32::MAX
@ensures
[C07] r1_list(r.0@) == r_list(self.0@)
[C07] dn1_list(r.0@)
[C07] nbe_list(self.0@) && sep(f_list(self.0@)) ==> f1_list(r.0@) == f_list(self.0@)
[C07] nbe_list(self.0@) ==> np1_list(r.0@)

# --------------------------------------------------- from stage 1 to stage 2

@fn ast1::ScopeVariant::v_conv
@ensures
[C06] crate::ast2_spec::sv_12(r) == self

@fn ast2::Scope::try_from
@requires
[C13] dn1_scope(value)
[C13] r1_scope(value).len() < u32::MAX
@ensures
[C06] r is Ok ==> r_scope(r->Ok_0) == r1_scope(value)
[C06] r is Ok ==> sv_12(r->Ok_0.variant) == value.variant
[C06] r is Ok ==> f_list(r->Ok_0.chunks@) == f1_list(value.chunks@) && nbe_scope(r->Ok_0)
[C08] r is Ok ==> dn_scope(r->Ok_0)
[C15] r is Ok && w1_scope(value) ==> w_scope(r->Ok_0)
[C07] r is Ok && np1_scope(value) ==> lab_scope(r->Ok_0)
[C14] told(r, e2_list(nd_list(value.chunks@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r1_scope(value))
@fdecreases r1_scope(value).len(), 0int

@fn ast1::Scope::v_try_conv
@requires
[C13] dn_scope(self)
[C13] r_scope(self).len() < u32::MAX
@ensures
[C06] r is Ok ==> crate::ast2_spec::r_scope(r->Ok_0) == r_scope(self)
[C06] r is Ok ==> crate::ast2_spec::sv_12(r->Ok_0.variant) == self.variant
[C06] r is Ok ==> crate::ast2_spec::f_list(r->Ok_0.chunks@) == crate::ast2_spec::f1_list(self.chunks@) && crate::ast2_spec::nbe_scope(r->Ok_0)
[C08] r is Ok ==> crate::ast2_spec::dn_scope(r->Ok_0)
[C15] r is Ok && w_scope(self) ==> crate::ast2_spec::w_scope(r->Ok_0)
[C07] r is Ok && crate::ast2_spec::np1_scope(self) ==> crate::ast2_spec::lab_scope(r->Ok_0)
[C14] crate::ast2_spec::told(r, crate::ast2_spec::e2_list(nd_list(self.chunks@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r_scope(self))
@fdecreases r_scope(self).len(), 1int

@fn ast2::Command::try_from
@requires
[C13] dn1_command(value)
[C13] r1_command(value).len() < u32::MAX
[C06] value.label@ != "begin"@ && value.label@ != "end"@
@ensures
[C06] r is Ok ==> r_command(r->Ok_0) == r1_command(value)
[C06] r is Ok ==> r->Ok_0.label == value.label && f_args(r->Ok_0.arguments@) == f1_args(value.arguments@) && nbe_command(r->Ok_0)
[C08] r is Ok ==> dn_command(r->Ok_0)
[C15] r is Ok && w1_command(value) ==> w_command(r->Ok_0)
[C07] r is Ok && np1_command(value) ==> lab_command(r->Ok_0)
[C14] told(r, e2_cmd(value.label@, nd_args(value.arguments@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r1_command(value))
@fdecreases r1_command(value).len(), 0int
@entry
proof {
    lemma_nl_len(r1_command(value));
    lemma_nl_one('\\');
    lemma_rn_nd_args(value.arguments@);
}
@loop L0
@inv
[C06] r_args(arguments@) == r1_args(it0.done())
[C06] f_args(arguments@) == f1_args(it0.done()) && nbe_args(arguments@)
[C08] dn_args(arguments@)
[C15] w1_args(g_it0) ==> w_args(arguments@)
[C07] np1_args(g_it0) ==> lab_args(arguments@)
[C15] arguments@.len() == it0.done().len()
[C14] e2_args(nd_args(it0.done()), r1_args(g_it0).len()) is None
[C14] offset == nl(label@) + nl(r1_args(it0.done()))
@top
proof {
    lemma_e2_arg(g_it0, it0.done(), it0.rest(), r1_args(g_it0).len());
    assert(r1_args(g_it0) == r1_args(it0.done()) + r1_args(it0.rest()));
    assert(nl(r1_args(g_it0)) == nl(r1_args(it0.done())) + nl(r1_args(it0.rest())));
    assert(nl(r1_args(it0.done())) == nl(r1_args(it0.done().drop_last())) + nl(prec@) + nl(r1_scope(scope)));
    assert(dn1_args(it0.done()));
    assert(w1_args(g_it0) ==> w1_args(it0.done()));
    assert(np1_args(g_it0) ==> np1_args(it0.done()));
}

@fn ast1::Command::v_try_conv
@requires
[C13] dn_command(self)
[C13] r_command(self).len() < u32::MAX
[C06] self.label@ != "begin"@ && self.label@ != "end"@
@ensures
[C06] r is Ok ==> crate::ast2_spec::r_command(r->Ok_0) == r_command(self)
[C06] r is Ok ==> r->Ok_0.label == self.label && crate::ast2_spec::f_args(r->Ok_0.arguments@) == crate::ast2_spec::f1_args(self.arguments@) && crate::ast2_spec::nbe_command(r->Ok_0)
[C08] r is Ok ==> crate::ast2_spec::dn_command(r->Ok_0)
[C15] r is Ok && w_command(self) ==> crate::ast2_spec::w_command(r->Ok_0)
[C07] r is Ok && crate::ast2_spec::np1_command(self) ==> crate::ast2_spec::lab_command(r->Ok_0)
[C14] crate::ast2_spec::told(r, crate::ast2_spec::e2_cmd(self.label@, nd_args(self.arguments@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r_command(self))
@fdecreases r_command(self).len(), 1int

@fn ast2::Document::try_from::lines
@requires
[C13] s@.len() < u32::MAX
@ensures
[C08] r == nl(s@)
@entry
proof {
    lemma_nl_len(s@);
}
@loop K0
@inv
[] acc0 == nl(k0.done())
@top
proof {
    assert(nl(s@) == nl(k0.done()) + nl(k0.rest()));
}

@fn ast2::Document::try_from
@requires
[C13] dn1_list(value.0@)
[C13] r1_list(value.0@).len() < u32::MAX
@ensures
[C06] r is Ok ==> r_list(r->Ok_0.0@) == r1_list(value.0@)
[C06] r is Ok ==> f_list(r->Ok_0.0@) == f1_list(value.0@) && nbe_list(r->Ok_0.0@)
[C08] r is Ok ==> dn_list(r->Ok_0.0@)
[C15] r is Ok && w1_list(value.0@) ==> w_list(r->Ok_0.0@)
[C07] r is Ok && np1_list(value.0@) ==> lab_list(r->Ok_0.0@)
[C14] told(r, e2_list(nd_list(value.0@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r1_list(value.0@))
@attr #[verifier::rlimit(70)]
@fdecreases r1_list(value.0@).len(), 2int
@entry
let ghost all = value.0@;
proof {
    lemma_nl_len(r1_list(all));
    lemma_nl_one('\\');
    lemma_f1_len(all);
    reveal_strlit("begin");
    reveal_strlit("end");
    assert("begin"@.len() == 5 && "end"@.len() == 3);
}
@loop L0
@pre
proof {
    lemma_e2_begin(all, buffer_stack@, prec_begin@, env_args@, buffer@, env_line_no as int, buffer_start as int);
}
@inv
[C06] ctext(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == r1_list(it0.done())
[C06] cits(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == f1_list(it0.done())
[C06] nbe_list(chunks@)
[C06] stk(buffer_stack@) is None ==> buffer@.len() == 0
[C14] e2_inv(all, it0.done().len() as int, buffer_stack@, prec_begin@, env_args@, buffer@, env_line_no as int, buffer_start as int)
[C08] dn_list(chunks@)
[C08] clines(stk(buffer_stack@), env_line_no, buffer_start, chunks@, prec_begin@, env_args@)
[C08] dn1_list(buffer@) && dn1_args(env_args@)
[C15] w1_list(all) ==> w_list(chunks@) && w1_list(buffer@) && w1_args(env_args@)
[C15] w1_list(all) ==> match stk(buffer_stack@) { None => true, Some(n) => name_ok(n) }
[C07] np1_list(all) ==> lab_list(chunks@) && np1_list(buffer@) && np1_args(env_args@)
[C07] np1_list(all) ==> match stk(buffer_stack@) { None => true, Some(n) => name_back(n) }
@top
let ghost d0 = it0.done().drop_last();
let ghost oc = it0.done().last();
let ghost g_chunks = chunks@;
let ghost g_args = env_args@;
let ghost g_buf = buffer@;
let ghost g_prec = prec_begin@;
let ghost g_name = stk(buffer_stack@);
let ghost g_stack = buffer_stack@;
let ghost g_at = env_line_no as int;
let ghost g_start = buffer_start as int;
proof {
    assert(it0.done() =~= d0.push(oc));
    assert(r1_list(all) == r1_list(it0.done()) + r1_list(it0.rest()));
    assert(nl(r1_list(all)) == nl(r1_list(it0.done())) + nl(r1_list(it0.rest())));
    assert(r1_list(it0.done()) == r1_list(d0) + r1_chunk(oc));
    assert(nl(r1_list(it0.done())) == nl(r1_list(d0)) + nl(r1_chunk(oc)));
    assert(dn1_list(it0.done()));
    assert(w1_list(all) ==> w1_list(it0.done()));
    assert(np1_list(all) ==> np1_list(it0.done()));
    assert(all.take(d0.len() as int) =~= d0);
    assert(all[d0.len() as int] == oc);
    lemma_e2_next(all, d0.len() as int, g_stack, g_prec, g_args, g_buf, g_at, g_start);
    lemma_ctext(g_chunks, g_name, g_prec, g_args, g_buf);
    lemma_first_arg(oc);
    lemma_nl_len(r_list(g_chunks));
    lemma_nl_len(r1_chunk(oc));
    assert(r1_list(all).len() == r1_list(d0).len() + r1_chunk(oc).len() + r1_list(it0.rest()).len());
    assert(g_name is Some ==> nl(r_list(g_chunks)) + nl(r1_chunk(oc)) + 8 < u32::MAX);
}
@end
proof {
    assert(e2_stay(g_stack, oc, buffer_stack@));
    assert(e2_fine(all, d0.len() as int, g_stack, g_prec, g_args, g_buf, g_at, g_start));
    if g_stack.len() > 0 && buffer_stack@.len() > 0 {
        assert(buffer@.drop_last() =~= g_buf);
    }
    if g_stack.len() == 0 && buffer_stack@.len() > 0 {
        lemma_opened(g_chunks, oc, prec_begin@, env_args@);
        assert(nl(r1_chunk(oc)) == nl(r1_variant(oc.variant)));
        assert(buffer_start == env_line_no + nl(r1_variant(oc.variant)));
    }
    lemma_e2_went(all, d0.len() as int, g_stack, g_prec, g_args, g_buf, g_at, g_start,
        buffer_stack@, prec_begin@, env_args@, buffer@, env_line_no as int, buffer_start as int);
    if g_name is None && stk(buffer_stack@) is None {
        assert(chunks@ =~= g_chunks.push(chunks@.last()));
        lemma_r_list_push(g_chunks, chunks@.last());
        lemma_f_list_push(g_chunks, chunks@.last());
        assert(r_chunk(chunks@.last()) == r1_chunk(oc));
        assert(f_variant(chunks@.last().variant) == f1_variant(oc.variant));
        assert(ctext(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == r1_list(it0.done()));
        assert(cits(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == f1_list(it0.done()));
    }
    if g_name is None && stk(buffer_stack@) is Some {
        lemma_opened(g_chunks, oc, prec_begin@, env_args@);
        if w1_list(all) {
            assert(w1_variant(oc.variant));
            assert(w1_list(oc.variant->Command_0.arguments@[0].1.chunks@));
            lemma_w_name(oc.variant->Command_0.arguments@[0].1.chunks@);
        }
        assert(nl(r1_list(it0.done())) == nl(r1_list(d0)) + nl(r1_chunk(oc)));
        assert(chunks@ == g_chunks);
        assert(buffer@ =~= Seq::empty());
        assert(ctext(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == r1_list(it0.done()));
        assert(cits(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == f1_list(it0.done()));
    }
    if g_name is Some && stk(buffer_stack@) is Some {
        assert(buffer@ =~= g_buf.push(buffer@.last()));
        assert(chunks@ == g_chunks && env_args@ == g_args && prec_begin@ == g_prec && stk(buffer_stack@) == g_name);
        lemma_ctext_push(g_chunks, g_name->Some_0, g_prec, g_args, g_buf, buffer@.last());
        lemma_cits_push(g_chunks, g_name->Some_0, g_prec, g_args, g_buf, buffer@.last());
        assert(buffer@.last().variant == oc.variant);
        assert(ctext(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == r1_list(it0.done()));
        assert(cits(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == f1_list(it0.done()));
    }
    if g_name is Some && stk(buffer_stack@) is None {
        lemma_same_text(g_stack.last()@, oc.variant->Command_0.arguments@[0].1.chunks@);
        assert(g_stack.len() == 1);
        assert(g_name->Some_0 == r1_list(oc.variant->Command_0.arguments@[0].1.chunks@));
        lemma_closed(g_chunks, chunks@.last(), oc, g_args, g_buf);
        assert(chunks@ =~= g_chunks.push(chunks@.last()));
        assert(ctext(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == r1_list(it0.done()));
        assert(cits(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@) == f1_list(it0.done()));
    }
}
@post
proof {
    lemma_ctext(chunks@, stk(buffer_stack@), prec_begin@, env_args@, buffer@);
    assert(it0.done() =~= all);
    lemma_e2_done(all, buffer_stack@, prec_begin@, env_args@, buffer@, env_line_no as int, buffer_start as int);
}
@loop K0
@inv
[C08] acc0 == nl(r1_args(k0.done()))
@top
proof {
    assert(nl(r1_args(g_k0)) == nl(r1_args(k0.done())) + nl(r1_args(k0.rest())));
    assert(nl(r1_args(k0.done())) == nl(r1_args(k0.done().drop_last())) + nl(x3.0@) + nl(r1_scope(x3.1)));
}
@loop K1
@inv
[C06] acc1@ == k1.done()
@loop L1
@inv
[C06] r_args(args_new@) == r1_args(it1.done())
[C06] f_args(args_new@) == f1_args(it1.done()) && nbe_args(args_new@)
[C08] dn_args(args_new@)
[C15] w1_args(g_it1) ==> w_args(args_new@)
[C07] np1_args(g_it1) ==> lab_args(args_new@)
[C14] e2_args(nd_args(it1.done()), r1_list(all).len()) is None
[C14] arg_line_no == env_line_no + nl(r1_list(label.chunks@)) + nl(prec_begin@) + nl(r1_args(it1.done()))
@top
proof {
    lemma_e2_arg(g_it1, it1.done(), it1.rest(), r1_list(all).len());
    assert(r1_args(g_it1) == r1_args(it1.done()) + r1_args(it1.rest()));
    assert(nl(r1_args(g_it1)) == nl(r1_args(it1.done())) + nl(r1_args(it1.rest())));
    assert(nl(r1_args(it1.done())) == nl(r1_args(it1.done().drop_last())) + nl(prec@) + nl(r1_scope(scope)));
    assert(dn1_args(it1.done()));
    assert(w1_args(g_it1) ==> w1_args(it1.done()));
    assert(np1_args(g_it1) ==> np1_args(it1.done()));
}

@fn ast1::Document::v_try_conv
@requires
[C13] dn_list(self.0@)
[C13] r_list(self.0@).len() < u32::MAX
@ensures
[C06] r is Ok ==> crate::ast2_spec::r_list(r->Ok_0.0@) == r_list(self.0@)
[C06] r is Ok ==> crate::ast2_spec::f_list(r->Ok_0.0@) == crate::ast2_spec::f1_list(self.0@) && crate::ast2_spec::nbe_list(r->Ok_0.0@)
[C08] r is Ok ==> crate::ast2_spec::dn_list(r->Ok_0.0@)
[C15] r is Ok && w_list(self.0@) ==> crate::ast2_spec::w_list(r->Ok_0.0@)
[C07] r is Ok && crate::ast2_spec::np1_list(self.0@) ==> crate::ast2_spec::lab_list(r->Ok_0.0@)
[C14] crate::ast2_spec::told(r, crate::ast2_spec::e2_list(nd_list(self.0@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r_list(self.0@))
@fdecreases r_list(self.0@).len(), 3int

@fn ast2::Document::from_str
@requires
[C13] s@.len() < u32::MAX
@ensures
[C06] r is Ok ==> r_list(r->Ok_0.0@) == strip(s@)
[C06] r is Ok ==> nbe_list(r->Ok_0.0@)
[C06] r is Ok ==> p_doc(s@) is Ok && f_list(r->Ok_0.0@) == nf_list(p_doc(s@)->Ok_0)
[C08] r is Ok ==> dn_list(r->Ok_0.0@)
[C15] r is Ok ==> w_list(r->Ok_0.0@)
[C07] r is Ok ==> lab_list(r->Ok_0.0@) && sep(f_list(r->Ok_0.0@))
[C14] told(r, e2_src(s@))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(s@)
@entry
broadcast use lemma_nf;
proof {
    crate::ast1_spec::lemma_lex_size(s@);
    crate::ast1_spec::lemma_strip(s@);
    crate::ast1_spec::lemma_na(s@);
    assert forall|c: Seq<ast1::Chunk>| #[trigger] crate::ast1_spec::pf_list(c) implies np1_list(c) by {
        lemma_pf_np(c);
    }
    assert forall|c: Seq<ast1::Chunk>| crate::ast1_spec::na(#[trigger] crate::ast1_spec::nd_list(c)) implies sep(f1_list(c)) by {
        lemma_na_sep(c);
    }
}
