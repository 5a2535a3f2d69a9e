@fn Request::parse_identifier(ident) -> r
@props C01 C22
@ensures C01: r.0@ =~= target_of(ident@)
@ensures C01: r.1@ =~= query_of(ident@)
@ensures C01: r.2@ =~= fragment_of(ident@)
@hint start proof { lemma_split_bounds(ident@); }
@loop 0
@inv it0@ == ident@
@inv match stats { ParseStats::Start => i0 == 0, ParseStats::Request => 0 < i0 <= query_at(ident@), ParseStats::Query => query_at(ident@) < i0 <= frag_at(ident@), ParseStats::Fragment => frag_at(ident@) < i0 }
@inv target@ =~= ident@.take(min2(i0 as int, query_at(ident@)))
@inv query@ =~= ident@.subrange(min2(i0 as int, query_at(ident@)), min2(i0 as int, frag_at(ident@)))
@inv fragment@ =~= ident@.subrange(min2(i0 as int, frag_at(ident@)), i0 as int)
@hint loop0.start proof { lemma_split_at(ident@, i0 - 1); }

@fn Request::with_target(self, target) -> r
@props C01 C02 C22
@ensures C01 C02: r.target@ == target@, r.query == self.query, r.fragment == self.fragment, r.kind == kind_of(target@)

@fn Resolver::parse(self, request) -> r
@props C01 C22
@ensures C01: r.target@ =~= target_of(request@), r.query@ =~= query_of(request@), r.fragment@ =~= fragment_of(request@)
@ensures C02: r.kind == kind_of(r.target@)

@fn Request::to_disp(self) -> r
@props C23
@ensures C23: r@ =~= self.target@ + self.query@ + self.fragment@

@fn Resolver::get_target_kind(target) -> r
@props C02 C22
@ensures C02: r == kind_of(target@)
@hint start proof { lemma_blen2(target@); ax_tables(); lemma_drive(the_ABSOLUTE_WIN_PATTERN_REST(), target@); }

@fn Resolver::is_build_in_module(target) -> r
@props C28 C22
@ensures C28: r == built_in(target@)
@hint start proof { ax_tables(); }
