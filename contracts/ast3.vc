# ------------------------------------------------------------ ScopeVariant

@fn ast3::ScopeVariant::open
@ensures
[C03,C11] r == sv_open(*self)

@fn ast3::ScopeVariant::close
@ensures
[C03,C11] r == sv_close(*self)

@fn ast3::ScopeVariant::from_ast2
@ensures
[C11] r == sv_32(value)

# ------------------------------------------------------------------- Chunk

@fn ast3::Chunk::new
@requires
[C13] nl(r_variant(variant)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_variant(variant)
[C04] r is Ok ==> r->Ok_0 == (Chunk { line_no, variant })
[C04] r is Err ==> bad_variant(variant, r->Err_0)

@fn ast3::Chunk::new_unchecked
@ensures
[] r == (Chunk { line_no, variant })

@fn ast3::Chunk::line_no
@ensures
[] r == self.line_no

@fn ast3::Chunk::variant
@ensures
[] *r == self.variant

@fn ast3::Chunk::variant_mut
@ensures
[] *r == old(self).variant
[] final(self).variant == *final(r)
[] final(self).line_no == old(self).line_no

@fn ast3::Chunk::variant_owned
@ensures
[] r == self.variant

@fn ast3::Chunk::decompose
@ensures
[] r.0 == self.line_no
[] r.1 == self.variant

@fn ast3::Chunk::fmt
@ensures
[C03,C11] r is Ok && final(f)@ == old(f)@ + r_chunk(*self)
@fdecreases self, 0int

@fn ast3::Chunk::v_to_string
@ensures
[C03,C11] r@ == r_chunk(*self)
@fdecreases self, 1int

@fn ast3::Chunk::validate
@requires
[C13] nl(r_chunk(*self)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_chunk(*self)
[C04] r is Err ==> bad_chunk(*self, r->Err_0)
@fdecreases self

@fn ast3::Chunk::lines
@requires
[C03] nl(r_chunk(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_chunk(*self))
@fdecreases self

# ------------------------------------------------------------ ChunkVariant

@fn ast3::ChunkVariant::fmt
@ensures
[C03,C11] r is Ok && final(f)@ == old(f)@ + r_variant(*self)
@fdecreases self, 0int

@fn ast3::ChunkVariant::v_to_string
@ensures
[C03,C11] r@ == r_variant(*self)
@fdecreases self, 1int

@fn ast3::ChunkVariant::validate
@requires
[C13] nl(r_variant(*self)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_variant(*self)
[C04] r is Err ==> bad_variant(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] txt_ok(it0.done()) && !brk(it0.done())
[] consec == tail_nl(it0.done())
@top
proof { assert(it0.done() =~= it0.done().drop_last().push(c)); assert(s@ == it0.done() + it0.rest()); lemma_brk_add(it0.done(), it0.rest()); assert(it0.done().contains(c)); if special(c) { lemma_txt_one(it0.done(), it0.rest(), c); } }
@loop L1
@inv
[] all_ws(it1.done()) && new_lines == nl(it1.done())
@top
proof { assert(it1.done() =~= it1.done().drop_last().push(c)); assert(inter@ == it1.done() + it1.rest()); lemma_all_ws_add(it1.done(), it1.rest()); }

@fn ast3::ChunkVariant::lines
@requires
[C03] nl(r_variant(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_variant(*self))
@fdecreases self

# ----------------------------------------------------------------- Command

@fn ast3::Command::new
@requires
[C13] nl(r_command(Command { label, arguments })) < u32::MAX
@ensures
[C04] r is Ok <==> ok_command(Command { label, arguments })
[C04] r is Ok ==> r->Ok_0 == (Command { label, arguments })
[C04] r is Err ==> bad_command(Command { label, arguments }, r->Err_0)

@fn ast3::Command::new_unchecked
@ensures
[] r == (Command { label, arguments })

@fn ast3::Command::label
@ensures
[] *r == self.label

@fn ast3::Command::arguments
@ensures
[] *r == self.arguments

@fn ast3::Command::label_owned
@ensures
[] r == self.label

@fn ast3::Command::arguments_owned
@ensures
[] r == self.arguments

@fn ast3::Command::decompose
@ensures
[] r.0 == self.label
[] r.1 == self.arguments

@fn ast3::Command::fmt
@ensures
[C03,C11] r is Ok && final(f)@ == old(f)@ + r_command(*self)
@fdecreases self, 0int
@entry
proof { reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']); }
let ghost o = f@;
@exit
proof { assert(f@ =~= o + r_command(*self)); }
@loop K0
@inv
[C03,C11] acc0@ == r_args(k0.done())
@end
proof { assert(acc0@ =~= r_args(k0.done())); }

@fn ast3::Command::v_to_string
@ensures
[C03,C11] r@ == r_command(*self)
@fdecreases self, 1int

@fn ast3::Command::validate
@requires
[C13] nl(r_command(*self)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_command(*self)
[C04] r is Err ==> bad_command(*self, r->Err_0)
@fdecreases self
@entry
proof {
    assert(nl(r_command(*self)) == nl(self.label@) + nl(r_args(self.arguments@)));
}
@loop L0
@inv
[] txt_ok(it0.done())
@loop L1
@inv
[] ok_args(it1.done())
@top
proof {
    assert(nl(r_args(self.arguments@)) == nl(r_args(it1.done())) + nl(r_args(it1.rest())));
    assert(nl(r_args(it1.done())) == nl(r_args(it1.done().drop_last())) + nl(it1.done().last().0@) + nl(r_scope(*arg)));
}

@fn ast3::Command::lines
@requires
[C03] nl(r_command(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_command(*self))
@fdecreases self
@loop L0
@inv
[C03] total == nl(self.label@) + nl(r_args(it0.done()))
@pre
proof {
    assert(nl(r_command(*self)) == nl(self.label@) + nl(r_args(self.arguments@)));
}
@top
proof {
    assert(nl(r_args(self.arguments@)) == nl(r_args(it0.done())) + nl(r_args(it0.rest())));
    assert(nl(r_args(it0.done())) == nl(r_args(it0.done().drop_last())) + nl(prec@) + nl(r_scope(*arg)));
}

# ------------------------------------------------------------------- Scope

@fn ast3::Scope::new
@requires
[C13] nl(r_scope(Scope { chunks, variant })) < u32::MAX
@ensures
[C04] r is Ok <==> ok_list(chunks@)
[C04] r is Ok ==> r->Ok_0 == (Scope { chunks, variant })
[C04] r is Err ==> bad_list(chunks@, r->Err_0)

@fn ast3::Scope::new_unchecked
@ensures
[] r == (Scope { chunks, variant })

@fn ast3::Scope::chunks
@ensures
[] *r == self.chunks

@fn ast3::Scope::chunks_owned
@ensures
[] r == self.chunks

@fn ast3::Scope::variant
@ensures
[] r == self.variant

@fn ast3::Scope::decompose
@ensures
[] r.0 == self.chunks
[] r.1 == self.variant

@fn ast3::Scope::fmt
@ensures
[C03,C11] r is Ok && final(f)@ == old(f)@ + r_scope(*self)
@fdecreases self, 0int
@entry
let ghost o = f@;
@exit
proof { assert(f@ =~= o + r_scope(*self)); }

@fn ast3::Scope::v_to_string
@ensures
[C03,C11] r@ == r_scope(*self)
@fdecreases self, 1int

@fn ast3::Scope::validate
@requires
[C13] nl(r_scope(*self)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_scope(*self)
[C04] r is Err ==> bad_scope(*self, r->Err_0)
@fdecreases self
@loop L0
@inv
[] ok_list(it0.done())
@top
proof {
    assert(nl(r_list(self.chunks@)) == nl(r_list(it0.done())) + nl(r_list(it0.rest())));
}

@fn ast3::Scope::lines
@requires
[C03] nl(r_scope(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_scope(*self))
@fdecreases self
@loop K0
@inv
[C03] acc0 == nl(r_list(k0.done()))

# ------------------------------------------------------------- Environment

@fn ast3::Environment::new
@requires
[C13] nl(r_env(Environment { label, arguments, content, prec_begin, prec_end })) < u32::MAX
@ensures
[C04] r is Ok <==> ok_env(Environment { label, arguments, content, prec_begin, prec_end })
[C04] r is Ok ==> r->Ok_0 == (Environment { label, arguments, content, prec_begin, prec_end })
[C04] r is Err ==> bad_env(Environment { label, arguments, content, prec_begin, prec_end }, r->Err_0)

@fn ast3::Environment::new_unchecked
@ensures
[] r == (Environment { label, arguments, content, prec_begin, prec_end })

@fn ast3::Environment::label
@ensures
[] *r == self.label

@fn ast3::Environment::decompose
@ensures
[] r.0 == self.label
[] r.1 == self.arguments
[] r.2 == self.content
[] r.3 == self.prec_begin
[] r.4 == self.prec_end

@fn ast3::Environment::fmt
@ensures
[C03,C11] r is Ok && final(f)@ == old(f)@ + r_env(*self)
@fdecreases self, 0int
@entry
let ghost o = f@;
@exit
proof { lemma_env_text(o, *self); }
@loop K0
@inv
[C03,C11] acc0@ == r_args(k0.done())
@end
proof { assert(acc0@ =~= r_args(k0.done())); }

@fn ast3::Environment::v_to_string
@ensures
[C03,C11] r@ == r_env(*self)
@fdecreases self, 1int

@fn ast3::Environment::validate
@requires
[C13] nl(r_env(*self)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_env(*self)
[C04] r is Err ==> bad_env(*self, r->Err_0)
@fdecreases self
@entry
proof {
    assert(nl(r_env(*self)) == 2 * nl(self.label@) + nl(self.prec_begin@) + nl(self.prec_end@) + nl(r_args(self.arguments@)) + nl(r_list(self.content@)));
}
@loop L0
@inv
[] txt_ok(it0.done())
@loop L1
@inv
[] ok_args(it1.done())
@top
proof {
    assert(nl(r_args(self.arguments@)) == nl(r_args(it1.done())) + nl(r_args(it1.rest())));
    assert(nl(r_args(it1.done())) == nl(r_args(it1.done().drop_last())) + nl(it1.done().last().0@) + nl(r_scope(*arg)));
}
@loop L2
@inv
[] ok_list(it2.done())
@top
proof {
    assert(nl(r_list(self.content@)) == nl(r_list(it2.done())) + nl(r_list(it2.rest())));
}

@fn ast3::Environment::lines
@requires
[C03] nl(r_env(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_env(*self))
@fdecreases self
@entry
proof {
    assert(nl(r_env(*self)) == 2 * nl(self.label@) + nl(self.prec_begin@) + nl(self.prec_end@) + nl(r_args(self.arguments@)) + nl(r_list(self.content@)));
}
@loop K1
@inv
[] acc1 == nl(k1.done())
@loop K2
@inv
[] acc1 == nl(self.prec_begin@) + nl(k2.done())
@loop L0
@inv
[C03] lines == 2 * nl(self.label@) + nl(self.prec_begin@) + nl(self.prec_end@) + nl(r_args(it0.done()))
@top
proof {
    assert(nl(r_args(self.arguments@)) == nl(r_args(it0.done())) + nl(r_args(it0.rest())));
    assert(nl(r_args(it0.done())) == nl(r_args(it0.done().drop_last())) + nl(prec@) + nl(r_scope(*arg)));
}
@loop L1
@inv
[C03] lines == 2 * nl(self.label@) + nl(self.prec_begin@) + nl(self.prec_end@) + nl(r_args(self.arguments@)) + nl(r_list(it1.done()))
@top
proof {
    assert(nl(r_list(self.content@)) == nl(r_list(it1.done())) + nl(r_list(it1.rest())));
}

# -------------------------------------------------------------- MathsBlock

@fn ast3::MathsBlock::new
@requires
[C13] nl(r_list(content@)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_list(content@)
[C04] r is Ok ==> r->Ok_0 == (MathsBlock { variant, raw_type, content })
[C04] r is Err ==> bad_list(content@, r->Err_0)

@fn ast3::MathsBlock::new_unchecked
@ensures
[] r == (MathsBlock { variant, raw_type, content })

@fn ast3::MathsBlock::fmt
@ensures
[C03,C11] r is Ok && final(f)@ == old(f)@ + r_maths(*self)
@fdecreases self, 0int
@entry
let ghost o = f@;
@exit
proof { lemma_m_marks(o, *self); }

@fn ast3::MathsBlock::v_to_string
@ensures
[C03,C11] r@ == r_maths(*self)
@fdecreases self, 1int

@fn ast3::MathsBlock::validate
@requires
[C13] nl(r_maths(*self)) < u32::MAX
@ensures
[C04] r is Ok <==> ok_maths(*self)
[C04] r is Err ==> bad_maths(*self, r->Err_0)
@fdecreases self
@entry
proof { lemma_m_lines(*self); }
@loop L0
@inv
[] ok_list(it0.done())
@top
proof {
    assert(nl(r_list(self.content@)) == nl(r_list(it0.done())) + nl(r_list(it0.rest())));
}

@fn ast3::MathsBlock::lines
@requires
[C03] nl(r_maths(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_maths(*self))
@fdecreases self
@entry
proof { lemma_m_lines(*self); }
@loop K0
@inv
[C03] acc0 == nl(r_list(k0.done()))

# ---------------------------------------------------------------- Document

@fn ast3::Document::default
@ensures
[] r == (Document { documentclass: None, documentoptions: r.documentoptions, preamable: r.preamable, body: r.body, body_args: r.body_args, body_begin_prec: r.body_begin_prec, body_end_prec: r.body_end_prec, trailing: r.trailing })
[] r.documentoptions@.len() == 0 && r.preamable@ == Seq::<Chunk>::empty() && r.body@ == Seq::<Chunk>::empty() && r.body_args@ == Seq::<(String, Scope)>::empty()
[] r.body_begin_prec@ == Seq::<char>::empty() && r.body_end_prec@ == Seq::<char>::empty() && r.trailing@ == Seq::<Chunk>::empty()

@fn ast3::Document::new
@requires
[C13] nl(r_list(preamable@)) < u32::MAX && nl(r_list(body@)) < u32::MAX && nl(r_list(trailing@)) < u32::MAX && nl(r_args(body_args@)) < u32::MAX
@ensures
[C04] r is Ok <==> num(preamable@) && ok_list(preamable@) && num(body@) && ok_list(body@) && num(trailing@) && ok_list(trailing@) && ok_args(body_args@)
[C04] r is Ok ==> r->Ok_0 == (Document { documentclass, documentoptions, preamable, body, body_args, body_begin_prec, body_end_prec, trailing })
[C04] r is Err ==> bad_list(preamable@, r->Err_0) || bad_num(preamable@, r->Err_0) || bad_list(body@, r->Err_0) || bad_num(body@, r->Err_0) || bad_list(trailing@, r->Err_0) || bad_num(trailing@, r->Err_0) || bad_args(body_args@, r->Err_0)

@fn ast3::Document::new_unchecked
@ensures
[] r == (Document { documentclass, documentoptions, preamable, body, body_args, body_begin_prec, body_end_prec, trailing })

@fn ast3::Document::chunks_preamable
@ensures
[] *r == self.preamable

@fn ast3::Document::chunks_body
@ensures
[] *r == self.body

@fn ast3::Document::chunks_trailing
@ensures
[] *r == self.trailing

@fn ast3::Document::decompose
@ensures
[] r.0 == self.documentclass && r.1 == self.documentoptions && r.2 == self.preamable && r.3 == self.body && r.4 == self.body_args && r.5 == self.body_begin_prec && r.6 == self.body_end_prec && r.7 == self.trailing

@fn ast3::Document::validate
@requires
[C13] nl(r_list(self.preamable@)) < u32::MAX && nl(r_list(self.body@)) < u32::MAX && nl(r_list(self.trailing@)) < u32::MAX && nl(r_args(self.body_args@)) < u32::MAX
@ensures
[C04] r is Ok <==> num(self.preamable@) && ok_list(self.preamable@) && num(self.body@) && ok_list(self.body@) && num(self.trailing@) && ok_list(self.trailing@) && ok_args(self.body_args@)
[C04] r is Err ==> bad_list(self.preamable@, r->Err_0) || bad_num(self.preamable@, r->Err_0) || bad_list(self.body@, r->Err_0) || bad_num(self.body@, r->Err_0) || bad_list(self.trailing@, r->Err_0) || bad_num(self.trailing@, r->Err_0) || bad_args(self.body_args@, r->Err_0)
@loop L0
@inv
[C04] forall|i: int| 0 <= i < it0.done().len() ==> num((#[trigger] it0.done()[i])@) && ok_list(it0.done()[i]@)
[C04] g_it0.len() == 3 && *g_it0[0] == self.preamable && *g_it0[1] == self.body && *g_it0[2] == self.trailing
@top
let ghost n0 = it0.done().len();
proof {
    assert(it0.done().last() == g_it0[it0.done().len() - 1]);
    assert(*section == self.preamable || *section == self.body || *section == self.trailing);
}
@end
proof {
    assert(it0.done().last() == section);
}
@post
proof {
    assert(it0.done() =~= g_it0);
    assert(num(it0.done()[0]@) && num(it0.done()[1]@) && num(it0.done()[2]@));
}
@loop L1
@inv
[C04] expected_line == 1 + nl(r_list(it1.done()))
[C04] num(it1.done()) && ok_list(it1.done())
@top
proof {
    assert(section@.take(it1.done().len() - 1) =~= it1.done().drop_last());
    assert(nl(r_list(section@)) == nl(r_list(it1.done())) + nl(r_list(it1.rest())));
}
@loop L2
@inv
[C04] ok_args(it2.done())
@top
proof {
    assert(nl(r_args(self.body_args@)) == nl(r_args(it2.done())) + nl(r_args(it2.rest())));
    assert(nl(r_args(it2.done())) == nl(r_args(it2.done().drop_last())) + nl(it2.done().last().0@) + nl(r_scope(*arg)));
}

@fn ast3::Document::lines
@requires
[C03] nl(r_doc(*self)) < u32::MAX
@ensures
[C03] r == 1 + nl(r_doc(*self))
@entry
proof { lemma_r_doc(*self); }
@loop K0
@inv
[C03] acc0 == nl(r_list(k0.done()))
@top
proof { assert(nl(r_list(g_k0)) == nl(r_list(k0.done())) + nl(r_list(k0.rest()))); }
@loop K1
@inv
[C03] acc0 == nl(r_list(self.preamable@)) + nl(r_list(k1.done()))
@top
proof { assert(nl(r_list(g_k1)) == nl(r_list(k1.done())) + nl(r_list(k1.rest()))); }
@loop K2
@inv
[C03] acc0 == nl(r_list(self.preamable@)) + nl(r_list(self.body@)) + nl(r_list(k2.done()))
@top
proof { assert(nl(r_list(g_k2)) == nl(r_list(k2.done())) + nl(r_list(k2.rest()))); }
@loop K3
@inv
[C03] acc1 == nl(r_args(k3.done()))
@top
proof {
    assert(nl(r_args(g_k3)) == nl(r_args(k3.done())) + nl(r_args(k3.rest())));
    assert(nl(r_args(k3.done())) == nl(r_args(k3.done().drop_last())) + nl(k3.done().last().0@) + nl(r_scope(k3.done().last().1)));
}
@loop K5
@inv
[C03] acc3 == nl(k5.done())
@loop K6
@inv
[C03] acc3 == nl(self.body_begin_prec@) + nl(k6.done())

@fn ast3::Document::fmt
@ensures
[C03,C11] r is Ok && final(f)@ == old(f)@ + r_doc(*self)
@loop K0
@inv
[C03,C11] acc0@ == r_list(k0.done())
@end
proof { assert(acc0@ =~= r_list(k0.done())); }
@loop K2
@inv
[C03,C11] acc1@ =~= k2.done()
@loop K3
@inv
[C03,C11] acc1@ =~= g_k2 + k3.done()
@loop K1
@pre
let ghost a1 = acc0@;
proof {
    lemma_doc_begin(g_k1, g_k1[0].variant->Command_0.arguments@[0], self.body_begin_prec@, self.body_args@);
}
@inv
[C03,C11] acc0@ == a1 + r_list(k1.done())
@end
proof { assert(acc0@ =~= a1 + r_list(k1.done())); }
@loop K4
@pre
let ghost a4 = acc0@;
@inv
[C03,C11] acc0@ == a4 + r_list(k4.done())
@end
proof { assert(acc0@ =~= a4 + r_list(k4.done())); }
@loop K5
@pre
let ghost a5 = acc0@;
proof {
    lemma_doc_end(g_k5, g_k5[0].variant->Command_0.arguments@[0], self.body_end_prec@);
}
@inv
[C03,C11] acc0@ == a5 + r_list(k5.done())
@end
proof { assert(acc0@ =~= a5 + r_list(k5.done())); }
@loop K6
@pre
let ghost a6 = acc0@;
proof { lemma_r_doc_def(*self); }
@inv
[C03,C11] acc0@ == a6 + r_list(k6.done())
@end
proof { assert(acc0@ =~= a6 + r_list(k6.done())); }

@fn ast3::Document::v_to_string
@ensures
[C03,C11] r@ == r_doc(*self)

@fn ast3::Document::push_chunk_vec_unchecked
@ensures
[C05] is_pushed(old(vec)@, chunk, final(vec)@)

@fn ast3::Document::validate_merge
@requires
[C13] merges(vec@, *variant) ==> nl(merged(vec@, *variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_merge(vec@, *variant)
[C05] r is Err ==> bad_merge(vec@, *variant, r->Err_0)

@fn ast3::Document::push_chunk_vec
@requires
[C13] end_line(old(vec)@) < u32::MAX && nl(r_chunk(chunk)) < u32::MAX
[C13] merges(old(vec)@, chunk.variant) ==> nl(merged(old(vec)@, chunk.variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_chunk(chunk) && chunk.line_no == end_line(old(vec)@) && ok_merge(old(vec)@, chunk.variant)
[C05] r is Err ==> *final(vec) == *old(vec)
[C05] r is Ok ==> is_pushed(old(vec)@, chunk, final(vec)@)

@fn ast3::Document::push_vec_unchecked
@requires
[C13] end_line(old(vec)@) < u32::MAX
@ensures
[C05] is_pushed(old(vec)@, Chunk { line_no: end_line(old(vec)@) as u32, variant }, final(vec)@)

@fn ast3::Document::push_vec
@requires
[C13] end_line(old(vec)@) < u32::MAX && nl(r_variant(variant)) < u32::MAX
[C13] merges(old(vec)@, variant) ==> nl(merged(old(vec)@, variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_variant(variant) && ok_merge(old(vec)@, variant)
[C05] r is Err ==> *final(vec) == *old(vec) && (bad_variant(variant, r->Err_0) || bad_merge(old(vec)@, variant, r->Err_0))
[C05] r is Ok ==> is_pushed(old(vec)@, Chunk { line_no: end_line(old(vec)@) as u32, variant }, final(vec)@)

@fn ast3::Document::push_body
@requires
[C13] end_line(old(self).body@) < u32::MAX && nl(r_variant(variant)) < u32::MAX
[C13] merges(old(self).body@, variant) ==> nl(merged(old(self).body@, variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_variant(variant) && ok_merge(old(self).body@, variant)
[C05] r is Err ==> *final(self) == *old(self) && (bad_variant(variant, r->Err_0) || bad_merge(old(self).body@, variant, r->Err_0))
[C05] r is Ok ==> is_pushed(old(self).body@, Chunk { line_no: end_line(old(self).body@) as u32, variant }, final(self).body@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_body_unchecked
@requires
[C13] end_line(old(self).body@) < u32::MAX
@ensures
[C05] is_pushed(old(self).body@, Chunk { line_no: end_line(old(self).body@) as u32, variant }, final(self).body@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_body_chunk
@requires
[C13] end_line(old(self).body@) < u32::MAX && nl(r_chunk(chunk)) < u32::MAX
[C13] merges(old(self).body@, chunk.variant) ==> nl(merged(old(self).body@, chunk.variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_chunk(chunk) && chunk.line_no == end_line(old(self).body@) && ok_merge(old(self).body@, chunk.variant)
[C05] r is Err ==> *final(self) == *old(self)
[C05] r is Ok ==> is_pushed(old(self).body@, chunk, final(self).body@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_body_chunk_unchecked
@ensures
[C05] is_pushed(old(self).body@, chunk, final(self).body@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_preamable
@requires
[C13] end_line(old(self).preamable@) < u32::MAX && nl(r_variant(variant)) < u32::MAX
[C13] merges(old(self).preamable@, variant) ==> nl(merged(old(self).preamable@, variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_variant(variant) && ok_merge(old(self).preamable@, variant)
[C05] r is Err ==> *final(self) == *old(self) && (bad_variant(variant, r->Err_0) || bad_merge(old(self).preamable@, variant, r->Err_0))
[C05] r is Ok ==> is_pushed(old(self).preamable@, Chunk { line_no: end_line(old(self).preamable@) as u32, variant }, final(self).preamable@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_preamable_unchecked
@requires
[C13] end_line(old(self).preamable@) < u32::MAX
@ensures
[C05] is_pushed(old(self).preamable@, Chunk { line_no: end_line(old(self).preamable@) as u32, variant }, final(self).preamable@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_preamable_chunk
@requires
[C13] end_line(old(self).preamable@) < u32::MAX && nl(r_chunk(chunk)) < u32::MAX
[C13] merges(old(self).preamable@, chunk.variant) ==> nl(merged(old(self).preamable@, chunk.variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_chunk(chunk) && chunk.line_no == end_line(old(self).preamable@) && ok_merge(old(self).preamable@, chunk.variant)
[C05] r is Err ==> *final(self) == *old(self)
[C05] r is Ok ==> is_pushed(old(self).preamable@, chunk, final(self).preamable@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_preamable_chunk_unchecked
@ensures
[C05] is_pushed(old(self).preamable@, chunk, final(self).preamable@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec && final(self).trailing == old(self).trailing

@fn ast3::Document::push_trailing
@requires
[C13] end_line(old(self).trailing@) < u32::MAX && nl(r_variant(variant)) < u32::MAX
[C13] merges(old(self).trailing@, variant) ==> nl(merged(old(self).trailing@, variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_variant(variant) && ok_merge(old(self).trailing@, variant)
[C05] r is Err ==> *final(self) == *old(self) && (bad_variant(variant, r->Err_0) || bad_merge(old(self).trailing@, variant, r->Err_0))
[C05] r is Ok ==> is_pushed(old(self).trailing@, Chunk { line_no: end_line(old(self).trailing@) as u32, variant }, final(self).trailing@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec

@fn ast3::Document::push_trailing_unchecked
@requires
[C13] end_line(old(self).trailing@) < u32::MAX
@ensures
[C05] is_pushed(old(self).trailing@, Chunk { line_no: end_line(old(self).trailing@) as u32, variant }, final(self).trailing@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec

@fn ast3::Document::push_trailing_chunk
@requires
[C13] end_line(old(self).trailing@) < u32::MAX && nl(r_chunk(chunk)) < u32::MAX
[C13] merges(old(self).trailing@, chunk.variant) ==> nl(merged(old(self).trailing@, chunk.variant)) < u32::MAX
@ensures
[C05] r is Ok <==> ok_chunk(chunk) && chunk.line_no == end_line(old(self).trailing@) && ok_merge(old(self).trailing@, chunk.variant)
[C05] r is Err ==> *final(self) == *old(self)
[C05] r is Ok ==> is_pushed(old(self).trailing@, chunk, final(self).trailing@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec

@fn ast3::Document::push_trailing_chunk_unchecked
@ensures
[C05] is_pushed(old(self).trailing@, chunk, final(self).trailing@)
[C05] final(self).documentclass == old(self).documentclass && final(self).documentoptions == old(self).documentoptions && final(self).preamable == old(self).preamable && final(self).body == old(self).body && final(self).body_args == old(self).body_args && final(self).body_begin_prec == old(self).body_begin_prec && final(self).body_end_prec == old(self).body_end_prec

# --------------------------------------------------- from stage 3 to stage 2

@fn ast3::ScopeVariant::v_conv
@ensures
[C11] r == sv_2(self)

@fn ast3::Chunk::into_chunks
@requires
[C13] dn_variant(self.variant)
[C13] self.line_no >= 1 && self.line_no + nl(r_variant(self.variant)) <= u32::MAX
@ensures
[C10,C11] r2_list(r@) == r_variant(self.variant)
[C10,C11] t2_list(r@) == t_variant(self.variant)
[C11] dnf2(r@, self.line_no as int)
@fdecreases self.variant, 0int
@entry
broadcast use crate::ast2_spec::group_ast2;
let ghost v = self.variant;
let ghost ln = self.line_no;
@exit
proof {
    if !(v is MathsBlock) {
        assert(v_ret@ =~= Seq::empty().push(v_ret@[0]));
        assert(r2_list(v_ret@) =~= r_variant(v));
        assert(t2_list(v_ret@) =~= t_variant(v));
    }
}
@loop K0
@inv
[C10,C11] r2_list(acc0@) == r2_list(k0.done())
[C10,C11] t2_list(acc0@) == t2_list(k0.done())
[C11] dnf2(acc0@, line_no as int)
@top
proof {
    assert(nl(r2_list(g_k0)) == nl(r2_list(k0.done())) + nl(r2_list(k0.rest())));
    assert(g_k0 == k0.done() + k0.rest());
    assert(dnf2(k0.done(), 1));
    assert(k0.done() =~= k0.done().drop_last().push(x1));
    assert(x1.line_no == 1 + nl(r2_list(k0.done().drop_last())));
    assert(nl(r2_list(k0.done())) == nl(r2_list(k0.done().drop_last())) + nl(r2_chunk(x1)));
    assert(r2_list(g_k0) == r_variant(v));
}

@fn ast3::MathsBlock::into_chunks
@requires
[C13] dn_maths(self)
[C13] nl(r_maths(self)) < u32::MAX
@ensures
[C10,C11] r2_list(r@) == r_maths(self)
[C10,C11] t2_list(r@) == t_maths(self)
[C11] dnf2(r@, 1)
@fdecreases self, 0int
@attr #[verifier::rlimit(60)]
@entry
broadcast use crate::ast2_spec::group_ast2;
let ghost m = self;
proof {
    reveal_strlit("(");
    reveal_strlit(")");
    reveal_strlit("[");
    reveal_strlit("]");
    assert("("@ =~= seq!['(']);
    assert(")"@ =~= seq![')']);
    assert("["@ =~= seq!['[']);
    assert("]"@ =~= seq![']']);
}
@loop K0
@inv
[C10,C11] acc0@ =~= k0.done()
@loop K1
@pre
let ghost b0 = acc0@;
proof {
    lemma_delim(b0[0], "("@);
    assert(b0 =~= seq![b0[0]]);
}
@inv
[C10,C11] r2_list(acc0@) == r2_list(b0) + r_list(k1.done())
[C10,C11] t2_list(acc0@) == t2_list(b0) + t_list(k1.done())
[C11] dnf2(acc0@, 1)
@top
proof {
    assert(nl(r_list(g_k1)) == nl(r_list(k1.done())) + nl(r_list(k1.rest())));
    assert(dn_list(k1.done()));
    assert(k1.done() =~= k1.done().drop_last().push(x2));
}
@loop K2
@pre
let ghost b1 = acc0@;
@inv
[C10,C11] acc0@ =~= b1 + k2.done()
@post
proof {
    assert(acc0@ =~= b1 + g_k2);
    assert(r2_list(acc0@) =~= r2_list(b0) + r_list(k1.done()));
    assert(t2_list(acc0@) =~= t2_list(b0) + t_list(k1.done()));
}
@loop K3
@pre
let ghost b3 = acc0@;
proof {
    lemma_delim(g_k3[0], ")"@);
    assert(g_k3 =~= seq![g_k3[0]]);
}
@inv
[C10,C11] acc0@ =~= b3 + k3.done()
@post
proof {
    assert(acc0@ =~= b3 + g_k3);
    assert(r2_list(acc0@) =~= r_maths(m));
    assert(t2_list(acc0@) =~= t_maths(m));
}
@loop K4
@inv
[C10,C11] acc1@ =~= k4.done()
@loop K5
@pre
let ghost b4 = acc1@;
proof {
    lemma_delim(b4[0], "["@);
    assert(b4 =~= seq![b4[0]]);
}
@inv
[C10,C11] r2_list(acc1@) == r2_list(b4) + r_list(k5.done())
[C10,C11] t2_list(acc1@) == t2_list(b4) + t_list(k5.done())
[C11] dnf2(acc1@, 1)
@top
proof {
    assert(nl(r_list(g_k5)) == nl(r_list(k5.done())) + nl(r_list(k5.rest())));
    assert(dn_list(k5.done()));
    assert(k5.done() =~= k5.done().drop_last().push(x6));
}
@loop K6
@pre
let ghost b5 = acc1@;
@inv
[C10,C11] acc1@ =~= b5 + k6.done()
@post
proof {
    assert(acc1@ =~= b5 + g_k6);
    assert(r2_list(acc1@) =~= r2_list(b4) + r_list(k5.done()));
    assert(t2_list(acc1@) =~= t2_list(b4) + t_list(k5.done()));
}
@loop K7
@pre
let ghost b7 = acc1@;
proof {
    lemma_delim(g_k7[0], "]"@);
    assert(g_k7 =~= seq![g_k7[0]]);
}
@inv
[C10,C11] acc1@ =~= b7 + k7.done()
@post
proof {
    assert(acc1@ =~= b7 + g_k7);
    assert(r2_list(acc1@) =~= r_maths(m));
    assert(t2_list(acc1@) =~= t_maths(m));
}
@loop K8
@inv
[C10,C11] r2_list(acc2@) == r_list(k8.done())
[C10,C11] t2_list(acc2@) == t_list(k8.done())
[C11] dnf2(acc2@, 1)
@top
proof {
    assert(nl(r_list(g_k8)) == nl(r_list(k8.done())) + nl(r_list(k8.rest())));
    assert(dn_list(k8.done()));
    assert(k8.done() =~= k8.done().drop_last().push(x9));
}
@loop K9
@pre
let ghost b8 = acc2@;
@inv
[C10,C11] acc2@ =~= b8 + k9.done()
@post
proof {
    assert(acc2@ =~= b8 + g_k9);
    assert(r2_list(acc2@) =~= r_list(k8.done()));
    assert(t2_list(acc2@) =~= t_list(k8.done()));
}
@before is_empty 0
let ghost o = out@;
proof {
    let d = dollars@;
    lemma_dollars(d);
    if o.len() == 0 {
        reveal_with_fuel(rep, 3);
        assert(rep(d, 2) =~= d + d);
        assert(d + Seq::<char>::empty() + d =~= d + d);
        lemma_chs_add(d, d);
        assert(chs(d) + Seq::<Tk>::empty() + chs(d) =~= chs(d) + chs(d));
        assert(r_maths(m) =~= d + d);
        assert(t_maths(m) =~= chs(d + d));
        assert forall|x: ast2::Chunk| x.variant is Text && x.variant->Text_0@ == d + d && x.line_no == 1 implies
            r2_list(#[trigger] Seq::empty().push(x)) == r_maths(m) && t2_list(Seq::empty().push(x)) == t_maths(m) && dnf2(Seq::empty().push(x), 1) by {
            lemma_one2(x, d + d);
            assert(Seq::empty().push(x) =~= seq![x]);
        }
    }
}
@before last_mut 0
let ghost mid = out@;
proof {
    assert(dollars_before(o, dollars@, mid));
    lemma_dollars_before(o, dollars@, mid);
}
@exit
proof {
    if o.len() > 0 {
        assert(dollars_after(mid, dollars@, v_ret@, lines));
        lemma_dollars_after(mid, dollars@, v_ret@, lines);
        assert(r2_list(v_ret@) =~= r_maths(m));
        assert(t2_list(v_ret@) =~= t_maths(m));
    }
}

@fn ast3::Scope::v_conv
@requires
[C13] dn_scope(self)
[C13] nl(r_scope(self)) < u32::MAX
@ensures
[C10,C11] r2_scope(r) == r_scope(self)
[C10,C11] t2_list(r.chunks@) == t_list(self.chunks@) && r.variant == sv_2(self.variant)
[C11] dn2_scope(r)
@fdecreases self, 1int

@fn ast2::Scope::from
@requires
[C13] crate::ast3_spec::dn_scope(value)
[C13] nl(crate::ast3_spec::r_scope(value)) < u32::MAX
@ensures
[C10,C11] r_scope(r) == crate::ast3_spec::r_scope(value)
[C10,C11] crate::ast3_spec::t2_list(r.chunks@) == crate::ast3_spec::t_list(value.chunks@) && r.variant == crate::ast3_spec::sv_2(value.variant)
[C11] dn_scope(r)
@fdecreases value, 0int
@entry
broadcast use crate::ast3_spec::group_ast3;
@loop K0
@inv
[C10,C11] r_list(acc0@) == crate::ast3_spec::r_list(k0.done())
[C10,C11] crate::ast3_spec::t2_list(acc0@) == crate::ast3_spec::t_list(k0.done())
[C11] crate::ast3_spec::dnf2(acc0@, 1)
@top
proof {
    assert(nl(crate::ast3_spec::r_list(g_k0)) == nl(crate::ast3_spec::r_list(k0.done())) + nl(crate::ast3_spec::r_list(k0.rest())));
    assert(crate::ast3_spec::dn_list(k0.done()));
}
@loop K1
@pre
let ghost a0 = acc0@;
@inv
[C10,C11] acc0@ == a0 + k1.done()

@fn ast3::Command::v_conv
@requires
[C13] dn_command(self)
[C13] nl(r_command(self)) < u32::MAX
@ensures
[C10,C11] r2_command(r) == r_command(self)
[C10,C11] r.label == self.label && t2_args(r.arguments@) == t_args(self.arguments@)
[C11] dn2_command(r)
@fdecreases self, 1int

@fn ast2::Command::from
@requires
[C13] crate::ast3_spec::dn_command(value)
[C13] nl(crate::ast3_spec::r_command(value)) < u32::MAX
@ensures
[C10,C11] r_command(r) == crate::ast3_spec::r_command(value)
[C10,C11] r.label == value.label && crate::ast3_spec::t2_args(r.arguments@) == crate::ast3_spec::t_args(value.arguments@)
[C11] dn_command(r)
@fdecreases value, 0int
@entry
broadcast use crate::ast3_spec::group_ast3;
@loop K0
@inv
[C10,C11] r_args(acc0@) == crate::ast3_spec::r_args(k0.done())
[C10,C11] crate::ast3_spec::t2_args(acc0@) == crate::ast3_spec::t_args(k0.done())
[C11] dn_args(acc0@)
@top
proof {
    assert(nl(crate::ast3_spec::r_args(g_k0)) == nl(crate::ast3_spec::r_args(k0.done())) + nl(crate::ast3_spec::r_args(k0.rest())));
    assert(nl(crate::ast3_spec::r_args(k0.done())) == nl(crate::ast3_spec::r_args(k0.done().drop_last())) + nl(k0.done().last().0@) + nl(crate::ast3_spec::r_scope(k0.done().last().1)));
    assert(crate::ast3_spec::dn_args(k0.done()));
}

@fn ast3::Environment::v_conv
@requires
[C13] dn_env(self)
[C13] nl(r_env(self)) < u32::MAX
@ensures
[C10,C11] r2_env(r) == r_env(self)
[C10,C11] r.label == self.label && r.prec_begin == self.prec_begin && r.prec_end == self.prec_end && t2_args(r.arguments@) == t_args(self.arguments@) && t2_list(r.content@) == t_list(self.content@)
[C11] dn2_env(r)
@fdecreases self, 1int

@fn ast2::Environment::from
@requires
[C13] crate::ast3_spec::dn_env(value)
[C13] nl(crate::ast3_spec::r_env(value)) < u32::MAX
@ensures
[C10,C11] r_env(r) == crate::ast3_spec::r_env(value)
[C10,C11] r.label == value.label && r.prec_begin == value.prec_begin && r.prec_end == value.prec_end && crate::ast3_spec::t2_args(r.arguments@) == crate::ast3_spec::t_args(value.arguments@) && crate::ast3_spec::t2_list(r.content@) == crate::ast3_spec::t_list(value.content@)
[C11] dn_env(r)
@fdecreases value, 0int
@entry
broadcast use crate::ast3_spec::group_ast3;
proof {
    assert(nl(crate::ast3_spec::r_env(value)) == 2 * nl(value.label@) + nl(value.prec_begin@) + nl(value.prec_end@) + nl(crate::ast3_spec::r_args(value.arguments@)) + nl(crate::ast3_spec::r_list(value.content@)));
}
@loop K0
@inv
[C10,C11] r_args(acc0@) == crate::ast3_spec::r_args(k0.done())
[C10,C11] crate::ast3_spec::t2_args(acc0@) == crate::ast3_spec::t_args(k0.done())
[C11] dn_args(acc0@)
@top
proof {
    assert(nl(crate::ast3_spec::r_args(g_k0)) == nl(crate::ast3_spec::r_args(k0.done())) + nl(crate::ast3_spec::r_args(k0.rest())));
    assert(nl(crate::ast3_spec::r_args(k0.done())) == nl(crate::ast3_spec::r_args(k0.done().drop_last())) + nl(k0.done().last().0@) + nl(crate::ast3_spec::r_scope(k0.done().last().1)));
    assert(crate::ast3_spec::dn_args(k0.done()));
}
@loop K1
@inv
[C10,C11] r_list(acc1@) == crate::ast3_spec::r_list(k1.done())
[C10,C11] crate::ast3_spec::t2_list(acc1@) == crate::ast3_spec::t_list(k1.done())
[C11] crate::ast3_spec::dnf2(acc1@, 1)
@top
proof {
    assert(nl(crate::ast3_spec::r_list(g_k1)) == nl(crate::ast3_spec::r_list(k1.done())) + nl(crate::ast3_spec::r_list(k1.rest())));
    assert(crate::ast3_spec::dn_list(k1.done()));
}
@loop K2
@pre
let ghost a1 = acc1@;
@inv
[C10,C11] acc1@ == a1 + k2.done()

@fn ast3::Document::v_conv
@requires
[C13] dn_doc(self)
[C13] nl(r_doc(self)) < u32::MAX
@ensures
[C11] r2_list(r.0@) == r_doc(self)
[C11] t2_list(r.0@) == t_doc(self)
[C11] dn2_list(r.0@)

@fn ast2::Document::from
@attr #[verifier::rlimit(60)]
@requires
[C13] crate::ast3_spec::dn_doc(value)
[C13] nl(crate::ast3_spec::r_doc(value)) < u32::MAX
@ensures
[C11] r_list(r.0@) == crate::ast3_spec::r_doc(value)
[C11] crate::ast3_spec::t2_list(r.0@) == crate::ast3_spec::t_doc(value)
[C11] dn_list(r.0@)
@entry
broadcast use crate::ast3_spec::group_ast3;
proof {
    crate::ast3_spec::lemma_r_doc(value);
    crate::ast3_spec::lemma_r_doc_def(value);
    crate::ast3_spec::lemma_t_doc(value);
}
@loop K0
@inv
[C11] r_list(acc0@) == crate::ast3_spec::r_list(k0.done())
[C11] crate::ast3_spec::t2_list(acc0@) == crate::ast3_spec::t_list(k0.done())
[C11] crate::ast3_spec::dnf2(acc0@, 1)
@top
proof {
    assert(nl(crate::ast3_spec::r_list(g_k0)) == nl(crate::ast3_spec::r_list(k0.done())) + nl(crate::ast3_spec::r_list(k0.rest())));
    assert(crate::ast3_spec::dn_list(k0.done()));
    assert(k0.done() =~= k0.done().drop_last().push(x1));
}
@loop K1
@pre
let ghost a0 = acc0@;
@inv
[C11] acc0@ =~= a0 + k1.done()
@loop K2
@inv
[C11] acc1 == nl(r_list(k2.done()))
@top
proof {
    assert(nl(r_list(g_k2)) == nl(r_list(k2.done())) + nl(r_list(k2.rest())));
}
@loop K3
@inv
[C11] r_list(acc2@) == crate::ast3_spec::r_list(k3.done())
[C11] crate::ast3_spec::t2_list(acc2@) == crate::ast3_spec::t_list(k3.done())
[C11] crate::ast3_spec::dnf2(acc2@, 1)
@top
proof {
    assert(nl(crate::ast3_spec::r_list(g_k3)) == nl(crate::ast3_spec::r_list(k3.done())) + nl(crate::ast3_spec::r_list(k3.rest())));
    assert(crate::ast3_spec::dn_list(k3.done()));
    assert(k3.done() =~= k3.done().drop_last().push(x5));
}
@loop K4
@pre
let ghost a3 = acc2@;
@inv
[C11] acc2@ =~= a3 + k4.done()
@loop K5
@inv
[C11] r_args(acc3@) == crate::ast3_spec::r_args(k5.done())
[C11] crate::ast3_spec::t2_args(acc3@) == crate::ast3_spec::t_args(k5.done())
[C11] dn_args(acc3@)
@top
proof {
    assert(nl(crate::ast3_spec::r_args(g_k5)) == nl(crate::ast3_spec::r_args(k5.done())) + nl(crate::ast3_spec::r_args(k5.rest())));
    assert(nl(crate::ast3_spec::r_args(k5.done())) == nl(crate::ast3_spec::r_args(k5.done().drop_last())) + nl(k5.done().last().0@) + nl(crate::ast3_spec::r_scope(k5.done().last().1)));
    assert(crate::ast3_spec::dn_args(k5.done()));
}
@before push_chunk_unchecked 0
let ghost q0 = out.0@;
let ghost bd = body;
@after push_chunk_unchecked 0
let ghost q1 = out.0@;
proof {
    crate::ast3_spec::lemma_pushed2(q0, bd, q1);
    let e = bd.variant->Environment_0;
    assert(r_variant(bd.variant) == t_begin(value.body_begin_prec@, "document"@) + crate::ast3_spec::r_args(value.body_args@) + crate::ast3_spec::r_list(value.body@) + t_end(value.body_end_prec@, "document"@));
    assert(r_list(q1) =~= crate::ast3_spec::r_list(value.preamable@) + (t_begin(value.body_begin_prec@, "document"@) + crate::ast3_spec::r_args(value.body_args@)) + crate::ast3_spec::r_list(value.body@) + t_end(value.body_end_prec@, "document"@));
    assert(q1 =~= q0.push(bd) || q1.len() == q0.len());
    assert(trailing_offset == nl(r_list(q1)));
}
@loop K6
@inv
[C11] r_list(out.0@) == r_list(q1) + crate::ast3_spec::r_list(k6.done())
[C11] crate::ast3_spec::t2_list(out.0@) == crate::ast3_spec::t2_list(q1) + crate::ast3_spec::t_list(k6.done())
[C11] crate::ast3_spec::dnf2(out.0@, 1)
@top
proof {
    assert(nl(crate::ast3_spec::r_list(g_k6)) == nl(crate::ast3_spec::r_list(k6.done())) + nl(crate::ast3_spec::r_list(k6.rest())));
    assert(crate::ast3_spec::dn_list(k6.done()));
    assert(k6.done() =~= k6.done().drop_last().push(x9));
}
@post
proof {
    assert(k6.done() =~= g_k6);
}
@loop K7
@pre
let ghost q2 = out.0@;
@inv
[C11] r_list(out.0@) == r_list(q2) + r_list(k7.done())
[C11] crate::ast3_spec::t2_list(out.0@) == crate::ast3_spec::t2_list(q2) + crate::ast3_spec::t2_list(k7.done())
[C11] crate::ast3_spec::dnf2(out.0@, 1)
@top
let ghost q3 = out.0@;
let ghost x10s = x10;
proof {
    assert(g_k7 == k7.done() + k7.rest());
    assert(crate::ast3_spec::dnf2(k7.done(), k6.done().last().line_no as int));
    assert(k7.done() =~= k7.done().drop_last().push(x10));
    assert(nl(r_list(g_k7)) == nl(r_list(k7.done())) + nl(r_list(k7.rest())));
    assert(nl(r_list(k7.done())) == nl(r_list(k7.done().drop_last())) + nl(r_chunk(x10)));
}
@end
proof {
    let y = Chunk { line_no: (x10s.line_no + trailing_offset) as u32, variant: x10s.variant };
    crate::ast3_spec::lemma_pushed2(q3, y, out.0@);
    assert(r_list(out.0@) =~= r_list(q2) + r_list(k7.done()));
    assert(crate::ast3_spec::t2_list(out.0@) =~= crate::ast3_spec::t2_list(q2) + crate::ast3_spec::t2_list(k7.done()));
}
@post
proof {
    assert(k7.done() =~= g_k7);
    assert(r_list(out.0@) =~= r_list(q1) + crate::ast3_spec::r_list(k6.done()));
    assert(crate::ast3_spec::t2_list(out.0@) =~= crate::ast3_spec::t2_list(q1) + crate::ast3_spec::t_list(k6.done()));
}

# --------------------------------------------------------------- paragraphs

@fn ast3::Paragraph::from_chunks
@requires
[C13] forall|i: int| 0 <= i < chunks@.len() ==> (#[trigger] chunks@[i]).line_no + nl(r_chunk(chunks@[i])) <= u32::MAX
@ensures
[C09] is_para(chunks@, r@)
@entry
proof { lemma_is_para_empty(Seq::empty(), Seq::empty()); }
@loop L0
@inv
[C09] is_para(it0.done(), new@)
@top
let ghost n0 = new@;
let ghost x = chunk;
let ghost mut new2 = new@;
let ghost mut tb2 = Seq::<char>::empty();
let ghost mut buf2 = Seq::<char>::empty();
let ghost mut con2 = 0int;
let ghost mut tl2 = 0int;
let ghost mut bl2 = 0int;
proof {
    assert(it0.done() =~= it0.done().drop_last().push(chunk));
    assert(chunk == g_it0[it0.done().len() - 1]);
    assert(nl(r_chunk(chunk)) == nl(r_variant(chunk.variant)));
}
@end
proof {
    let p = new@.skip(n0.len() as int);
    assert(new@ =~= n0 + p);
    if x.variant is Text {
        let p2 = new2.skip(n0.len() as int);
        if new@.len() == new2.len() {
            assert(p =~= p2);
        } else {
            assert(p =~= p2.push(new@.last()));
        }
        lemma_p_end(p2, tb2, buf2, con2, tl2, bl2, x.line_no as int, x.variant->Text_0@, p);
    } else {
        assert(p =~= seq![x]);
    }
    lemma_is_para_push(it0.done().drop_last(), x, n0, p);
}
@loop L1
@inv
[C09] n0.len() <= new@.len() && new@.take(n0.len() as int) == n0
[C09] p_inv(new@.skip(n0.len() as int), x.line_no as int, it1.done(), text_buffer@, buffer@, consec_newlines as int, text_buffer_line as int, buffer_line as int)
[C09] line_no == x.line_no + nl(it1.done())
@pre
proof {
    assert(new@.skip(n0.len() as int) =~= Seq::empty());
    assert(new@.take(n0.len() as int) =~= n0);
    assert(it1.done() =~= Seq::empty());
}
@top
let ghost new1 = new@;
let ghost tb1 = text_buffer@;
let ghost buf1 = buffer@;
let ghost con1 = consec_newlines as int;
let ghost tl1 = text_buffer_line as int;
let ghost bl1 = buffer_line as int;
proof {
    assert(it1.done() =~= it1.done().drop_last().push(c));
    assert(s@ == it1.done() + it1.rest());
    assert(nl(s@) == nl(it1.done()) + nl(it1.rest()));
}
@end
proof {
    assert(new@.take(n0.len() as int) =~= n0);
    let p1 = new1.skip(n0.len() as int);
    let p2 = new@.skip(n0.len() as int);
    if new@.len() == new1.len() {
        assert(p2 =~= p1);
    } else {
        assert(p2 =~= p1.push(new@.last()));
    }
    lemma_p_step(p1, tb1, buf1, con1, tl1, bl1, x.line_no as int, it1.done().drop_last(), c, p2, text_buffer@, buffer@, consec_newlines as int, text_buffer_line as int, buffer_line as int);
}
@post
proof {
    new2 = new@;
    tb2 = text_buffer@;
    buf2 = buffer@;
    con2 = consec_newlines as int;
    tl2 = text_buffer_line as int;
    bl2 = buffer_line as int;
    assert(it1.done() =~= s@);
}

# --------------------------------------------------- from stage 2 to stage 3

@fn ast3::MathsBlock::from_chunks
@split variant
r2_list(chunks@).len(), 3int
@type buffer Vec<ast2::Chunk>
@attr #[verifier::rlimit(150)]
@requires
[C13] dn2_list(chunks@) && mo_list(chunks@)
[C13] r2_list(chunks@).len() < u32::MAX
@ensures
[C10] r is Ok ==> t_list(r->Ok_0@) == t2_list(chunks@)
[C10] r is Ok ==> r_list(r->Ok_0@) == r2_list(chunks@)
[C10] r is Ok ==> dn_list(r->Ok_0@)
[C10] r is Ok ==> mn_list(r->Ok_0@)
[C15] r is Ok && w2_list(chunks@) ==> w_list(r->Ok_0@)
[C14] told(r, e3_list(t2_list(chunks@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r2_list(chunks@))
@fdecreases r2_list(chunks@).len(), 2int
@entry
broadcast use group_para;
let ghost all = t2_list(chunks@);
let ghost n = rt(all).len();
proof {
    lemma_nl_len(r2_list(chunks@));
    lemma_m_names();
    lemma_mi_start(Seq::empty(), 0, Seq::empty(), w2_list(chunks@));
    lemma_e3_begin(rt(t2_list(chunks@)).len(), Seq::empty(), 0, Seq::empty());
    lemma_t2_list_empty(Seq::empty());
}
@loop L0
@inv
[C10] mi(t2_list(it0.done()), mode, depth as int, buffer@, buffer_line as int, out@, Seq::empty(), w2_list(g_it0))
[C14] e3i(n, t2_list(it0.done()), mode, depth as int, out@)
@top
let ghost x = chunk;
let ghost d0 = it0.done().drop_last();
let ghost m0 = mode;
let ghost dep0 = depth as int;
let ghost b0 = buffer@;
let ghost bl0 = buffer_line as int;
let ghost o0 = out@;
let ghost w = w2_list(g_it0);
let ghost mut mz = mode;
let ghost mut bz = b0;
let ghost mut blz = bl0;
let ghost mut oz = o0;
let ghost mut tz = Seq::<char>::empty();
let ghost mut tlz = 0int;
let ghost k0t = t2_variant(chunk.variant)[0];
proof {
    broadcast use crate::ast2_spec::group_ast2;
    assert(it0.done() =~= d0.push(x));
    assert(g_it0 == it0.done() + it0.rest());
    assert(r2_list(g_it0) == r2_list(d0) + r2_variant(x.variant) + r2_list(it0.rest()));
    assert(nl(r2_list(g_it0)) == nl(r2_list(d0)) + nl(r2_variant(x.variant)) + nl(r2_list(it0.rest())));
    assert(dn2_list(it0.done()));
    assert(mo_list(it0.done()));
    assert(w ==> w2_list(it0.done()));
    lemma_rt2(d0);
    lemma_mi_text(t2_list(d0), m0, dep0, b0, bl0, o0, Seq::empty(), w);
    lemma_run_le(mt(m0), t2_list(b0));
    lemma_rt2(b0);
    crate::ast2_spec::def_r_variant(x.variant);
    crate::ast2_spec::def_dn_variant(x.variant);
    crate::ast2_spec::def_w_variant(x.variant);
    def_mo_variant(x.variant);
    def_t2_variant(x.variant);
    crate::ast2_spec::def_r_scope(x.variant->Scope_0);
    assert(all =~= t2_list(d0) + t2_variant(x.variant) + t2_list(it0.rest()));
    if !(x.variant is Text) {
        lemma_e3_chunk(all, t2_list(d0), x, t2_list(it0.rest()), m0, dep0, b0, bl0, o0, w);
    }
}
@end
proof {
    let e = Seq::<char>::empty();
    let dd = t2_list(d0);
    assert(t2_list(it0.done()) == dd + t2_variant(x.variant));
    if !(x.variant is Text) {
        if m0 == MathsMode::None {
            lemma_mi_none(dd, dep0, b0, bl0, o0, w);
        }
        lemma_e3_went(n, dd, m0, dep0, b0, bl0, o0, e, w, k0t, mode, depth as int, out@);
    }
    match x.variant {
        ast2::ChunkVariant::Text(s) => {
            if brc(m0) {
                assert(buffer@ =~= b0.push(x));
                lemma_mi_buf(dd, m0, dep0, b0, bl0, o0, w, x, depth as int);
                lemma_e3_skip(n, dd, m0, dep0, o0, s@);
            } else {
                lemma_e3_out(n, dd + chs(s@), mz, depth as int, oz, out@);
                lemma_mi_flush(dd + chs(s@), mz, depth as int, bz, blz, oz, tz, w, tlz, buffer@, out@);
            }
        },
        ast2::ChunkVariant::Command(c) => {
            def_mo_command(c);
            crate::ast2_spec::def_dn_command(c);
            crate::ast2_spec::def_w_command(c);
            if delim(c.label@) {
                assert(c.label@ =~= seq![c.label@[0]]);
                lemma_t2_args_empty(c.arguments@);
            }
            if m0 == MathsMode::None {
                if c.label@ == seq!['('] || c.label@ == seq!['['] {
                    assert(mk(mode) =~= t2_variant(x.variant));
                    lemma_mi_open(dd, bl0, dep0, b0, o0, w, mode, buffer_line as int);
                } else {
                    assert(out@ =~= o0.push(out@.last()));
                    lemma_mi_out_command(out@.last().variant, c);
                    lemma_mi_out(dd, dep0, b0, bl0, o0, w, t2_variant(x.variant), out@.last());
                }
            } else if brc(m0) && mode == MathsMode::None {
                assert(out@ =~= o0.push(out@.last()));
                assert(dd + t2_variant(x.variant) =~= dd.push(mend(m0)));
                lemma_mi_close(dd, m0, dep0, b0, bl0, o0, w, out@.last(), out@, buffer@, depth as int, buffer_line as int);
            } else {
                assert(buffer@ =~= b0.push(x));
                lemma_mi_buf(dd, m0, dep0, b0, bl0, o0, w, x, depth as int);
            }
        },
        _ => {
            if m0 == MathsMode::None {
                assert(out@ =~= o0.push(out@.last()));
                lemma_mi_out(dd, dep0, b0, bl0, o0, w, t2_variant(x.variant), out@.last());
            } else {
                assert(buffer@ =~= b0.push(x));
                lemma_mi_buf(dd, m0, dep0, b0, bl0, o0, w, x, depth as int);
            }
        },
    }
}
@post
proof {
    assert(it0.done() =~= g_it0);
    lemma_mi_text(t2_list(g_it0), mode, depth as int, buffer@, buffer_line as int, out@, Seq::empty(), w2_list(g_it0));
    lemma_rt2(g_it0);
    lemma_rt3(out@);
    lemma_e3_done(all, mode, depth as int, buffer@, buffer_line as int, out@, Seq::empty(), w2_list(g_it0));
    if mode == MathsMode::None {
        lemma_t2_list_empty(buffer@);
        lemma_chs_empty(Seq::empty());
        assert(t2_list(g_it0) =~= t_list(out@));
    }
}
@loop K0
@pre
proof {
    lemma_dnf2_from(b0, bl0);
}
@inv
[C10] moved(k0.done(), acc0@, bl0 - 1)
@post
proof {
    assert(k0.done() =~= b0);
    lemma_moved(b0, acc0@, bl0 - 1, bl0);
}
@loop K1
@pre
proof {
    lemma_dnf2_from(b0, bl0);
}
@inv
[C10] moved(k1.done(), acc1@, bl0 - 1)
@post
proof {
    assert(k1.done() =~= b0);
    lemma_moved(b0, acc1@, bl0 - 1, bl0);
}
@loop L1
@pre
proof {
    assert(it1.done() =~= Seq::empty());
    lemma_chs_empty(it1.done());
    assert(t2_list(d0) + chs(it1.done()) =~= t2_list(d0));
    assert(nl(it1.done()) == 0);
}
@inv
[C10] mi(t2_list(d0) + chs(it1.done()), mode, depth as int, buffer@, buffer_line as int, out@, text_buffer@, w)
[C10] !brc(mode)
[C14] e3i(n, t2_list(d0) + chs(it1.done()), mode, depth as int, out@)
[C10] cursor_line_no == x.line_no + nl(it1.done())
[C10] text_buffer_line + nl(text_buffer@) == cursor_line_no
@top
let ghost e1 = it1.done().drop_last();
let ghost dd1 = t2_list(d0) + chs(e1);
let ghost m1 = mode;
let ghost b1 = buffer@;
let ghost bl1 = buffer_line as int;
let ghost o1 = out@;
let ghost t1 = text_buffer@;
let ghost tl1 = text_buffer_line as int;
let ghost mut bf = b1;
proof {
    assert(it1.done() =~= e1.push(c));
    assert(s@ == it1.done() + it1.rest());
    assert(nl(s@) == nl(it1.done()) + nl(it1.rest()));
    lemma_chs_push(e1, c);
    assert(t2_list(d0) + chs(it1.done()) =~= dd1.push(Tk::Ch(c)));
    lemma_rt_add(t2_list(d0), chs(e1));
    lemma_rt_chs(e1);
    lemma_mi_text(dd1, m1, depth as int, b1, bl1, o1, t1, w);
    lemma_chs_add(it1.done(), it1.rest());
    assert(all =~= dd1.push(Tk::Ch(c)) + (chs(it1.rest()) + t2_list(it0.rest())));
    lemma_e3_char(all, dd1, c, chs(it1.rest()) + t2_list(it0.rest()), m1, depth as int, b1, bl1, o1, t1, w);
    if w {
        assert(s@ =~= e1 + seq![c] + it1.rest());
        lemma_w_text_parts(e1 + seq![c], it1.rest());
        lemma_w_text_parts(e1, seq![c]);
    }
}
@end
proof {
    let e = Seq::<char>::empty();
    if c != '$' {
        lemma_mi_char(dd1, m1, depth as int, b1, bl1, o1, t1, w, c);
        lemma_e3_went(n, dd1, m1, depth as int, b1, bl1, o1, t1, w, Tk::Ch(c), mode, depth as int, out@);
    } else if m1 == MathsMode::None {
        lemma_mi_flush(dd1, m1, depth as int, b1, bl1, o1, t1, w, tl1, b1, out@);
        lemma_mi_open(dd1, bl1, depth as int, b1, out@, w, mode, buffer_line as int);
        lemma_mi_none(dd1, depth as int, b1, bl1, out@, w);
        lemma_e3_went(n, dd1, m1, depth as int, b1, bl1, o1, t1, w, Tk::Ch(c), mode, depth as int, out@);
        assert(dd1 + mk(mode) =~= dd1.push(Tk::Ch('$')));
    } else if m1 == MathsMode::SingleDollar(MathsVariant::Dollars) && t1.len() == 0 && b1.len() == 0 {
        lemma_mi_double(dd1, depth as int, b1, bl1, o1, t1, w);
        lemma_e3_went(n, dd1, m1, depth as int, b1, bl1, o1, t1, w, Tk::Ch(c), mode, depth as int, out@);
    } else if m1 == MathsMode::DoubleDollar(MathsVariant::Dollars) {
        lemma_mi_closing(dd1, depth as int, b1, bl1, o1, t1, w);
        lemma_e3_went(n, dd1, m1, depth as int, b1, bl1, o1, t1, w, Tk::Ch(c), mode, depth as int, out@);
    } else {
        assert(out@ =~= o1.push(out@.last()));
        lemma_mi_close(dd1, m1, depth as int, bf, bl1, o1, w, out@.last(), out@, buffer@, depth as int, buffer_line as int);
        lemma_e3_went(n, dd1, m1, depth as int, bf, bl1, o1, e, w, Tk::Ch(c), mode, depth as int, out@);
    }
}
@post
proof {
    assert(it1.done() =~= s@);
    mz = mode;
    bz = buffer@;
    blz = buffer_line as int;
    oz = out@;
    tz = text_buffer@;
    tlz = text_buffer_line as int;
    lemma_rt_add(t2_list(d0), chs(s@));
    lemma_rt_chs(s@);
}
@loop K2
@pre
proof {
    lemma_mi_flush(dd1, m1, depth as int, b1, bl1, o1, t1, w, tl1, g_k2, o1);
    lemma_mi_text(dd1, m1, depth as int, g_k2, bl1, o1, Seq::empty(), w);
    lemma_dnf2_from(g_k2, bl1);
}
@inv
[C10] moved(k2.done(), acc2@, bl1 - 1)
@post
proof {
    assert(k2.done() =~= g_k2);
    lemma_moved(g_k2, acc2@, bl1 - 1, bl1);
    lemma_chs_empty(Seq::empty());
    assert(t2_list(g_k2) + chs(Seq::empty()) =~= t2_list(g_k2));
    lemma_e3_char(all, dd1, c, chs(it1.rest()) + t2_list(it0.rest()), m1, depth as int, g_k2, bl1, o1, Seq::empty(), w);
    bf = g_k2;
}
@loop K3
@pre
proof {
    lemma_mi_flush(dd1, m1, depth as int, b1, bl1, o1, t1, w, tl1, g_k3, o1);
    lemma_mi_text(dd1, m1, depth as int, g_k3, bl1, o1, Seq::empty(), w);
    lemma_dnf2_from(g_k3, bl1);
}
@inv
[C10] moved(k3.done(), acc3@, bl1 - 1)
@post
proof {
    assert(k3.done() =~= g_k3);
    lemma_moved(g_k3, acc3@, bl1 - 1, bl1);
    lemma_chs_empty(Seq::empty());
    assert(t2_list(g_k3) + chs(Seq::empty()) =~= t2_list(g_k3));
    lemma_e3_char(all, dd1, c, chs(it1.rest()) + t2_list(it0.rest()), m1, depth as int, g_k3, bl1, o1, Seq::empty(), w);
    bf = g_k3;
}
@exit
proof {
    lemma_rt3(v_ret->Ok_0@);
}

@fn ast3::Scope::try_from
@requires
[C13] dn2_scope(value) && mo_scope(value)
[C13] r2_scope(value).len() < u32::MAX
@ensures
[C10,C11] r is Ok ==> t_list(r->Ok_0.chunks@) == t2_list(value.chunks@)
[C10,C11] r is Ok ==> sv_2(r->Ok_0.variant) == value.variant
[C10,C11] r is Ok ==> r_scope(r->Ok_0) == r2_scope(value)
[C10,C11] r is Ok ==> dn_scope(r->Ok_0)
[C10] r is Ok ==> mn_scope(r->Ok_0)
[C15] r is Ok && w2_scope(value) ==> w_scope(r->Ok_0)
[C14] told(r, e3_list(t2_list(value.chunks@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r2_scope(value))
@fdecreases r2_scope(value).len(), 0int
@entry
broadcast use group_para, crate::ast2_spec::group_ast2;
proof {
    lemma_nl_len(r2_scope(value));
    lemma_rt2(value.chunks@);
}
@exit
proof {
    if v_ret is Ok {
        lemma_rt3(v_ret->Ok_0.chunks@);
    }
}

@fn ast2::Scope::v_try_conv
@requires
[C13] dn_scope(self) && crate::ast3_spec::mo_scope(self)
[C13] r_scope(self).len() < u32::MAX
@ensures
[C10,C11] r is Ok ==> crate::ast3_spec::t_list(r->Ok_0.chunks@) == crate::ast3_spec::t2_list(self.chunks@)
[C10,C11] r is Ok ==> crate::ast3_spec::sv_2(r->Ok_0.variant) == self.variant
[C10,C11] r is Ok ==> crate::ast3_spec::r_scope(r->Ok_0) == r_scope(self)
[C10,C11] r is Ok ==> crate::ast3_spec::dn_scope(r->Ok_0)
[C10] r is Ok ==> crate::ast3_spec::mn_scope(r->Ok_0)
[C15] r is Ok && w_scope(self) ==> crate::ast3_spec::w_scope(r->Ok_0)
[C14] crate::ast3_spec::told(r, crate::ast3_spec::e3_list(crate::ast3_spec::t2_list(self.chunks@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r_scope(self))
@fdecreases r_scope(self).len(), 1int

@fn ast3::Command::try_from
@requires
[C13] dn2_command(value) && mo_command(value)
[C13] r2_command(value).len() < u32::MAX
@ensures
[C10,C11] r is Ok ==> r->Ok_0.label == value.label
[C10,C11] r is Ok ==> t_args(r->Ok_0.arguments@) == t2_args(value.arguments@)
[C10,C11] r is Ok ==> r_command(r->Ok_0) == r2_command(value)
[C10,C11] r is Ok ==> dn_command(r->Ok_0)
[C10] r is Ok ==> mn_args(r->Ok_0.arguments@)
[C15] r is Ok && w2_command(value) ==> w_command(r->Ok_0)
[C14] told(r, e3_cmd(value.label@, t2_args(value.arguments@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r2_command(value))
@fdecreases r2_command(value).len(), 0int
@entry
broadcast use crate::ast2_spec::group_ast2;
proof {
    lemma_nl_len(r2_command(value));
    lemma_nl_one('\\');
}
@loop K0
@inv
[] acc0 == nl(k0.done())
@top
proof {
    assert(nl(g_k0) == nl(k0.done()) + nl(k0.rest()));
    assert(nl(k0.done()) == nl(k0.done().drop_last()) + nl(seq![x1]));
}
@loop L0
@inv
[C10,C11] r_args(args_new@) == r2_args(it0.done())
[C10,C11] t_args(args_new@) == t2_args(it0.done())
[C10] mn_args(args_new@)
[C10,C11] dn_args(args_new@)
[C15] w2_args(g_it0) ==> w_args(args_new@)
[C14] e3_args(t2_args(it0.done()), rta(t2_args(g_it0)).len()) is None
[C14] offset == nl(label@) + nl(r2_args(it0.done()))
@top
proof {
    lemma_e3_arg(g_it0, it0.done(), it0.rest());
    assert(r2_args(g_it0) == r2_args(it0.done()) + r2_args(it0.rest()));
    assert(nl(r2_args(g_it0)) == nl(r2_args(it0.done())) + nl(r2_args(it0.rest())));
    assert(nl(r2_args(it0.done())) == nl(r2_args(it0.done().drop_last())) + nl(prec@) + nl(r2_scope(scope)));
    assert(dn2_args(it0.done()));
    assert(mo_args(it0.done()));
    assert(w2_args(g_it0) ==> w2_args(it0.done()));
}

@fn ast2::Command::v_try_conv
@requires
[C13] dn_command(self) && crate::ast3_spec::mo_command(self)
[C13] r_command(self).len() < u32::MAX
@ensures
[C10,C11] r is Ok ==> r->Ok_0.label == self.label
[C10,C11] r is Ok ==> crate::ast3_spec::t_args(r->Ok_0.arguments@) == crate::ast3_spec::t2_args(self.arguments@)
[C10,C11] r is Ok ==> crate::ast3_spec::r_command(r->Ok_0) == r_command(self)
[C10,C11] r is Ok ==> crate::ast3_spec::dn_command(r->Ok_0)
[C10] r is Ok ==> crate::ast3_spec::mn_args(r->Ok_0.arguments@)
[C15] r is Ok && w_command(self) ==> crate::ast3_spec::w_command(r->Ok_0)
[C14] crate::ast3_spec::told(r, crate::ast3_spec::e3_cmd(self.label@, crate::ast3_spec::t2_args(self.arguments@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r_command(self))
@fdecreases r_command(self).len(), 1int

@fn ast3::Environment::try_from
@requires
[C13] dn2_env(value) && mo_env(value)
[C13] r2_env(value).len() < u32::MAX
@ensures
[C10,C11] r is Ok ==> r->Ok_0.label == value.label && r->Ok_0.prec_begin == value.prec_begin && r->Ok_0.prec_end == value.prec_end
[C10,C11] r is Ok ==> t_args(r->Ok_0.arguments@) == t2_args(value.arguments@)
[C10,C11] r is Ok ==> t_list(r->Ok_0.content@) == t2_list(value.content@)
[C10,C11] r is Ok ==> r_env(r->Ok_0) == r2_env(value)
[C10,C11] r is Ok ==> dn_env(r->Ok_0)
[C10] r is Ok ==> mn_env(r->Ok_0)
[C15] r is Ok && w2_env(value) ==> w_env(r->Ok_0)
[C14] told(r, e3_env(value.prec_begin@, value.label@, t2_args(value.arguments@), t2_list(value.content@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r2_env(value))
@fdecreases r2_env(value).len(), 0int
@entry
broadcast use group_para, crate::ast2_spec::group_ast2;
proof {
    lemma_nl_len(r2_env(value));
    lemma_rt2(value.content@);
}
@loop K0
@inv
[] acc0 == nl(k0.done())
@top
proof {
    assert(nl(g_k0) == nl(k0.done()) + nl(k0.rest()));
}
@loop K1
@inv
[] acc0 == nl(g_k0) + nl(k1.done())
@top
proof {
    assert(nl(g_k1) == nl(k1.done()) + nl(k1.rest()));
}
@loop L0
@inv
[C10,C11] r_args(args_new@) == r2_args(it0.done())
[C10,C11] t_args(args_new@) == t2_args(it0.done())
[C10] mn_args(args_new@)
[C10,C11] dn_args(args_new@)
[C15] w2_args(g_it0) ==> w_args(args_new@)
[C14] e3_args(t2_args(it0.done()), rta(t2_args(g_it0)).len()) is None
[C14] offset == nl(prec_begin@) + nl(label@) + nl(r2_args(it0.done()))
@top
proof {
    lemma_e3_arg(g_it0, it0.done(), it0.rest());
    assert(r2_args(g_it0) == r2_args(it0.done()) + r2_args(it0.rest()));
    assert(nl(r2_args(g_it0)) == nl(r2_args(it0.done())) + nl(r2_args(it0.rest())));
    assert(nl(r2_args(it0.done())) == nl(r2_args(it0.done().drop_last())) + nl(prec@) + nl(r2_scope(scope)));
    assert(dn2_args(it0.done()));
    assert(mo_args(it0.done()));
    assert(w2_args(g_it0) ==> w2_args(it0.done()));
}
@post
proof {
    assert(it0.done() =~= g_it0);
    lemma_rt2_args(g_it0);
}
@exit
proof {
    if v_ret is Ok {
        lemma_rt3(v_ret->Ok_0.content@);
    }
}

@fn ast2::Environment::v_try_conv
@requires
[C13] dn_env(self) && crate::ast3_spec::mo_env(self)
[C13] r_env(self).len() < u32::MAX
@ensures
[C10,C11] r is Ok ==> r->Ok_0.label == self.label && r->Ok_0.prec_begin == self.prec_begin && r->Ok_0.prec_end == self.prec_end
[C10,C11] r is Ok ==> crate::ast3_spec::t_args(r->Ok_0.arguments@) == crate::ast3_spec::t2_args(self.arguments@)
[C10,C11] r is Ok ==> crate::ast3_spec::t_list(r->Ok_0.content@) == crate::ast3_spec::t2_list(self.content@)
[C10,C11] r is Ok ==> crate::ast3_spec::r_env(r->Ok_0) == r_env(self)
[C10,C11] r is Ok ==> crate::ast3_spec::dn_env(r->Ok_0)
[C10] r is Ok ==> crate::ast3_spec::mn_env(r->Ok_0)
[C15] r is Ok && w_env(self) ==> crate::ast3_spec::w_env(r->Ok_0)
[C14] crate::ast3_spec::told(r, crate::ast3_spec::e3_env(self.prec_begin@, self.label@, crate::ast3_spec::t2_args(self.arguments@), crate::ast3_spec::t2_list(self.content@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r_env(self))
@fdecreases r_env(self).len(), 1int

# --------------------------------------------------------------- stage 3 from stage 2

@fn ast3::Document::try_from
@split variant
0int
@type preamable Vec<ast2::Chunk>
@type trailing Vec<ast2::Chunk>
@attr #[verifier::rlimit(150)]
@requires
[C13] dn2_list(value.0@) && mo_list(value.0@)
[C13] r2_list(value.0@).len() < u32::MAX
@ensures
[C11] r is Ok && has_doc(value.0@) ==> r_doc(r->Ok_0) == r2_list(value.0@)
[C11] r is Ok && has_doc(value.0@) ==> t_doc(r->Ok_0) == t2_list(value.0@)
[C11] r is Ok && !has_doc(value.0@) ==> t_list(r->Ok_0.preamable@) == t2_list(value.0@) && r->Ok_0.body@.len() == 0 && t_list(r->Ok_0.trailing@).len() == 0
[C11] r is Ok ==> dn_doc(r->Ok_0)
[C11] r is Ok ==> nl(r_doc(r->Ok_0)) <= nl(r2_list(value.0@))
[C10] r is Ok ==> mn_doc(r->Ok_0)
[C12] r is Ok ==> dca(dargs(pre_of(value.0@)), r->Ok_0.documentclass, r->Ok_0.documentoptions@)
[C15] r is Ok && w2_list(value.0@) ==> w_doc(r->Ok_0)
[C14] told(r, e3_doc(t2_list(value.0@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r2_list(value.0@))
@entry
broadcast use group_para, crate::ast2_spec::group_ast2;
let ghost all = value.0@;
let ghost mut gd = Seq::<ast2::Chunk>::empty();
let ghost mut gr = Seq::<ast2::Chunk>::empty();
let ghost mut tr = Seq::<ast2::Chunk>::empty();
let ghost mut pr = Seq::<ast2::Chunk>::empty();
let ghost mut cu = true;
proof {
    lemma_nl_len(r2_list(value.0@));
}
@loop L0
@pre
proof {
    lemma_pre_of_empty(it0.done());
    lemma_dca_empty(preamable@, construct.documentclass, construct.documentoptions@);
    lemma_t2_list_empty(it0.done());
    lemma_e3d_begin(t2_list(it0.done()), preamable@);
}
@inv
[C10,C11] dn_args(construct.body_args@) && dn_list(construct.body@)
[C10] mn_args(construct.body_args@) && mn_list(construct.body@)
[C15] w2_list(all) ==> w_args(construct.body_args@) && w_list(construct.body@)
[C11] pre_of(it0.done()) == preamable@
[C12] dca(dargs(preamable@), construct.documentclass, construct.documentoptions@)
[C14] e3di(t2_list(it0.done()), construct.documentclass is Some, cursor != CursorState::Preamable, preamable@)
[C14] cursor != CursorState::Preamable ==> gd.last().variant is Environment
[C11] cursor == CursorState::Preamable ==> preamable@ == it0.done() && trailing@.len() == 0 && trailing_offset == 0 && construct.body@.len() == 0 && construct.body_args@.len() == 0 && construct.body_begin_prec@.len() == 0 && construct.body_end_prec@.len() == 0
[C11] cursor != CursorState::Preamable ==> it0.done() == gd + gr && gd.len() == preamable@.len() + 1
[C11] cursor != CursorState::Preamable ==> trailing_offset == nl(r2_list(gd)) && moved(gr, trailing@, trailing_offset as int)
[C11] cursor != CursorState::Preamable ==> gd == preamable@.push(gd.last())
[C11] cursor != CursorState::Preamable ==> t2_list(gd) == t2_list(preamable@) + seq![Tk::Env(construct.body_begin_prec@, "document"@, t_args(construct.body_args@), t_list(construct.body@), construct.body_end_prec@)]
[C11] cursor != CursorState::Preamable ==> r2_list(gd) == r2_list(preamable@) + (t_begin(construct.body_begin_prec@, "document"@) + r_args(construct.body_args@) + r_list(construct.body@) + t_end(construct.body_end_prec@, "document"@))
@top
let ghost d0 = it0.done().drop_last();
let ghost x = chunk;
let ghost c0 = cursor;
let ghost p0 = preamable@;
let ghost t0 = trailing@;
let ghost cls0 = construct.documentclass;
let ghost ops0 = construct.documentoptions@;
proof {
    assert(t2_list(all) =~= t2_list(d0) + t2_variant(x.variant) + t2_list(it0.rest()));
    lemma_rt2(d0);
    lemma_e3d_next(t2_list(all), t2_list(d0), t2_list(it0.rest()), cls0 is Some, c0 != CursorState::Preamable, p0, x);
    assert(it0.done() =~= d0.push(x));
    assert(g_it0 =~= it0.done() + it0.rest());
    assert(nl(r2_list(g_it0)) == nl(r2_list(it0.done())) + nl(r2_list(it0.rest())));
    assert(r2_list(g_it0).len() == r2_list(it0.done()).len() + r2_list(it0.rest()).len());
    assert(dn2_list(it0.done()));
    assert(mo_list(it0.done()));
    assert(w2_list(g_it0) ==> w2_list(it0.done()));
    lemma_pre_of_push(d0, x);
    lemma_dargs_push(p0, x);
    lemma_nl_len(r2_variant(x.variant));
    lemma_nl_len(r2_list(d0));
    lemma_nl_len(r2_list(it0.rest()));
    if x.variant is Environment {
        let e = x.variant->Environment_0;
        lemma_nl_len(e.prec_begin@);
        lemma_nl_len(e.prec_end@);
        lemma_nl_len(e.label@);
        lemma_nl_len(r2_args(e.arguments@));
        lemma_nl_len(r2_list(e.content@));
        assert(r2_env(e).len() >= nl(r2_env(e)) + 14);
    }
}
@end
proof {
    lemma_e3d_went(t2_list(d0), cls0 is Some, c0 != CursorState::Preamable, p0, x, construct.documentclass is Some, cursor != CursorState::Preamable, preamable@);
    if c0 == CursorState::Preamable {
        if cursor == CursorState::Preamable {
            assert(preamable@ =~= it0.done());
        } else {
            gd = it0.done();
            gr = Seq::empty();
            assert(it0.done() =~= gd + gr);
        }
    } else {
        gr = gr.push(x);
        assert(it0.done() =~= gd + gr);
        assert(moved(gr, trailing@, trailing_offset as int)) by {
            assert forall|i: int| 0 <= i < gr.len() implies (#[trigger] trailing@[i]).variant == gr[i].variant && trailing@[i].line_no + trailing_offset == gr[i].line_no by {
                if i < t0.len() {
                    assert(trailing@[i] == t0[i]);
                }
            }
        }
    }
}
@post
proof {
    tr = trailing@;
    pr = preamable@;
    cu = cursor == CursorState::Preamable;
    assert(it0.done() =~= g_it0);
    assert(g_it0 =~= all);
    lemma_dnf2_one(all);
    if cursor == CursorState::Preamable {
        assert(tr =~= Seq::empty());
        lemma_t2_list_empty(tr);
        lemma_e3d_done(all, construct.documentclass is Some, false, pr, gd, tr);
        lemma_e3_none(t2_list(tr));
    } else {
        assert(r2_list(all) == r2_list(gd) + r2_list(gr));
        assert(t2_list(all) == t2_list(gd) + t2_list(gr));
        assert(nl(r2_list(all)) == nl(r2_list(gd)) + nl(r2_list(gr)));
        lemma_dnf2_add(gd, gr, 1);
        lemma_moved(gr, tr, trailing_offset as int, 1 + trailing_offset as int);
        lemma_dnf2_one(tr);
        assert(gd.drop_last() =~= pr);
        lemma_e3d_done(all, construct.documentclass is Some, true, pr, gd, tr);
        assert(mo_list(gd + gr));
        assert(dn2_list(gd + gr));
        assert(gd =~= pr.push(gd.last()));
        assert(dn2_list(gd));
        assert(mo_list(gd));
        assert(w2_list(all) ==> w2_list(gd) && w2_list(gr));
    }
}
@exit
proof {
    if v_ret is Ok {
        let d = v_ret->Ok_0;
        lemma_r_doc_def(d);
        lemma_t_doc(d);
        lemma_r_doc(d);
        if cu {
        } else {
            assert(r_doc(d) =~= r2_list(all));
            assert(t_doc(d) =~= t2_list(all));
        }
    }
}
@loop L1
@pre
let ghost ar = it1.all();
let ghost da = dargs(p0);
@inv
[C12] dca(da + it1.done(), construct.documentclass, construct.documentoptions@)
@top
let ghost sc = g_it1[it1.done().len() - 1];
let ghost cl0 = construct.documentclass;
let ghost op0 = construct.documentoptions@;
proof {
    let r1 = seq![sc] + it1.rest();
    assert(ar =~= it1.done().drop_last() + r1);
    assert(r1[0] == sc);
    lemma_dca_count(da, cls0, ops0, it1.done().drop_last(), r1, cl0, op0);
}
@end
proof {
    assert(da + it1.done() =~= (da + it1.done().drop_last()).push(sc));
    if sc.1.variant is Curly {
        lemma_dca_curly(da + it1.done().drop_last(), cl0, op0, sc, construct.documentclass);
    } else {
        lemma_dca_opts(da + it1.done().drop_last(), cl0, op0, sc, construct.documentoptions@);
    }
}
@post
proof {
    assert(it1.done() =~= ar);
    lemma_dca_count(da, cls0, ops0, ar, Seq::empty(), construct.documentclass, construct.documentoptions@);
}
@loop L2
@pre
proof {
    lemma_dco_empty(op0);
    assert(texts(it2.done()) =~= Seq::empty());
}
@inv
[C12] dco(op0, texts(it2.done()), construct.documentoptions@)
[C12] construct.documentclass == cl0
@top
let ghost dd = it2.done().drop_last();
let ghost op1 = construct.documentoptions@;
let ghost ot = opt@;
let ghost mut ga = Seq::<char>::empty();
let ghost mut gk = Seq::<char>::empty();
let ghost mut gv = Seq::<char>::empty();
proof {
    assert(texts(it2.done()) =~= texts(dd).push(ot));
}
@end
proof {
    let o = construct.documentoptions@.last();
    assert(o.0@ + ga + o.3@ =~= ot);
    if o.2 is None {
        lemma_opt_flag(ot, o);
    } else {
        assert(o.1@ + o.2->Some_0.0@ =~= gk);
        assert(o.2->Some_0.1@ + o.2->Some_0.2@ =~= gv);
        assert(gv.len() > 0 ==> gv.last() == ga.last());
        lemma_opt_pair(ot, o, ga, gk, gv);
    }
    lemma_dco_push(op0, texts(dd), op1, ot, o);
}
@post
proof {
    assert(it2.done() =~= g_it2);
}
@loop L3
@inv
[C12] prec@ + arg@ + buffer@ == it3.done()
[C12] all_ws(prec@) && all_ws(buffer@) && trim(arg@)
[C12] buffermode == BufferMode::Prec ==> prec@.len() == 0 && arg@.len() == 0
[C12] buffermode != BufferMode::Prec ==> arg@.len() > 0
[C12] buffermode == BufferMode::Arg ==> buffer@.len() == 0
@top
let ghost e3 = it3.done().drop_last();
proof {
    assert(it3.done() =~= e3.push(c));
}
@end
proof {
    assert(prec@ + arg@ + buffer@ =~= it3.done());
}
@post
proof {
    assert(it3.done() =~= ot);
    ga = arg@;
}
@loop L4
@inv
[C12] key@ + buffer@ == it4.done()
[C12] all_ws(buffer@) && trim(key@)
[C12] key@.len() == 0 ==> it4.done().len() == 0
@top
let ghost e4 = it4.done().drop_last();
proof {
    assert(it4.done() =~= e4.push(c));
    assert(e4.len() == 0 ==> c == arg@[0]);
}
@end
proof {
    assert(key@ + buffer@ =~= it4.done());
}
@post
proof {
    assert(it4.done() =~= k@);
    gk = k@;
}
@loop L5
@inv
[C12] equal_post@ + val@ == it5.done()
[C12] all_ws(equal_post@)
[C12] val_started <==> val@.len() > 0
[C12] val@.len() > 0 ==> !ws(val@[0])
@top
let ghost e5 = it5.done().drop_last();
proof {
    assert(it5.done() =~= e5.push(c));
}
@end
proof {
    assert(equal_post@ + val@ =~= it5.done());
}
@post
proof {
    assert(it5.done() =~= v@);
    gv = v@;
}

@fn ast2::Document::v_try_conv
@requires
[C13] dn_list(self.0@) && crate::ast3_spec::mo_list(self.0@)
[C13] r_list(self.0@).len() < u32::MAX
@ensures
[C11,C12] r is Ok ==> crate::ast3_spec::made_of(self, r->Ok_0)
[C11] r is Ok ==> crate::ast3_spec::dn_doc(r->Ok_0)
[C11] r is Ok ==> nl(crate::ast3_spec::r_doc(r->Ok_0)) <= nl(r_list(self.0@))
[C10] r is Ok ==> crate::ast3_spec::mn_doc(r->Ok_0)
[C15] r is Ok && w_list(self.0@) ==> crate::ast3_spec::w_doc(r->Ok_0)
[C14] crate::ast3_spec::told(r, crate::ast3_spec::e3_doc(crate::ast3_spec::t2_list(self.0@)))
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(r_list(self.0@))

@fn ast3::Document::from_str
@requires
[C13] s@.len() < u32::MAX
@ensures
[C11,C12] r is Ok ==> exists|d: ast2::Document| from_2(s@, d) && #[trigger] made_of(d, r->Ok_0)
[C11] r is Ok ==> dn_doc(r->Ok_0)
[C11,C13] r is Ok ==> nl(r_doc(r->Ok_0)) < u32::MAX
[C10] r is Ok ==> mn_doc(r->Ok_0)
[C15] r is Ok ==> w_doc(r->Ok_0)
[C14] match e2_src(s@) { Some(e) => r is Err && says(r->Err_0, e), None => exists|d: ast2::Document| from_2(s@, d) && told(r, #[trigger] e3_doc(t2_list(d.0@))) }
[C14] r is Err ==> 1 <= r->Err_0.line <= 1 + nl(s@)
@entry
broadcast use lemma_w_mo;
proof {
    crate::ast1_spec::lemma_lex_size(s@);
    crate::ast1_spec::lemma_strip(s@);
    lemma_nl_len(s@);
}
