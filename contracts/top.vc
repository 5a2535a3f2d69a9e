@fn Resolver::normalize_path_without_link(path) -> r
@props C03 C04 C22 C26
@ensures C03 C04: lexical(path@, r@)
@ensures C03: plain(p_comps(r@)), is_root(p_comps(r@)) == is_root(p_comps(path@)), norm(p_comps(r@)) == p_comps(r@)
@hint start proof { lemma_norm(p_comps(path@)); lemma_norm_ends(p_comps(path@)); }
@loop 0
@inv it0@.len() == p_comps(path@).len()
@inv forall|i: int| 0 <= i < it0@.len() ==> comp_v(#[trigger] it0@[i]) == p_comps(path@)[i] && !(it0@[i] is Prefix)
@inv p_comps(acc0@) == norm(p_comps(path@).take(i0 as int))
@hint loop0.start proof { lemma_norm_at(p_comps(path@), i0 - 1); }

@fn Resolver::normalize_path(self, path) -> r
@props C03 C04 C22
@ensures C03 C04: match r { Ok(p) => real_path(*self, path@, p@), Err(e) => self.options.symlinks && fs_real(path@).is_none() && e@ != tag() }

@fn Resolver::normalize_result(self, result) -> r
@props C01 C03 C04 C22 C23
@requires result is Info ==> result->Info_0.request.target@ == Seq::<char>::empty()
@ensures C01 C03 C04 C23: match result { ResolveResult::Info(i) => answer(*self, StV::Succ(iv(i)), r), ResolveResult::Ignored => answer(*self, StV::Ign, r) }

@fn Resolver::resolve(self, path, request) -> r
@props C01 C02 C03 C04 C20 C22 C23
@requires wf(*self)
@ensures C01 C03 C04 C23: exists|s: StV| #[trigger] seen(s) && cand_ok(s) && search(*self, request_info(path@, request@), s) && answer(*self, s, r)
@ensures C02 C20: exists|s: StV| #[trigger] seen(s) && search(*self, request_info(path@, request@), s) && (r is Ok ==> succ(s))
@ensures C23: r is Err ==> r->Err_0@ != tag()

@fn Resolver::_resolve_with_tsconfig(self, info, location) -> r
@props C01 C20 C21 C22
@loop 0
@inv ts_fails(*self, iv(info), it0@, i0 as int)
@hint loop0.after assert(ts_fails(*self, iv(info), it0@, it0@.len() as int));
@loop 1
@inv it1@.len() == it0@[i0 - 1].paths@.len() && forall|b: int| 0 <= b < it1@.len() ==> *(#[trigger] it1@[b]) == it0@[i0 - 1].paths@[b]
@inv ts_fail(*self, iv(info), it0@[i0 - 1], i1 as int)
@hint loop1.start let ghost c = ts_cand(iv(info), it0@[i0 - 1], i1 - 1);
@requires wf_info(info)
@requires wf(*self)
@ensures seen(sv(r)), wf_st(r), r is Success || r is Error
@ensures C20 C21: TSRES(*self, iv(info), location@, sv(r))
@ensures C01: r is Success && r->Success_0 is Info ==> exists|y: InfoV| #[trigger] RES(*self, y, sv(r)) && y.query == info.request.query@ && y.fragment == info.request.fragment@
@ensures C04: file_succ(r)
@ensures C23: r is Error ==> r->Error_0.0@ != tag()

@fn Resolver::load_side_effects(self, path) -> r
@props C19 C22
@requires wf(*self)
@hint start proof { reveal(pkg_rel); }
@ensures C19: side_rule(*self, path@, r)

@fn Resolver::new(options) -> r
@props C24
@ensures C24: r.options.extensions == options.extensions, r.options.alias == options.alias, r.options.prefer_relative == options.prefer_relative
@ensures C24: r.options.external_cache == options.external_cache, r.options.symlinks == options.symlinks, r.options.description_file == options.description_file
@ensures C24: r.options.main_files == options.main_files, r.options.main_fields == options.main_fields, r.options.browser_field == options.browser_field
@ensures C24: r.options.condition_names == options.condition_names, r.options.tsconfig == options.tsconfig
@ensures C24: r.options.enforce_extension == (if options.enforce_extension.is_some() { options.enforce_extension } else { Some(has_empty(options.extensions@)) })
@ensures C24: options.external_cache.is_some() ==> r.cache == options.external_cache.unwrap()
@ensures C25: r.fs.duration.ns() == 1_000_000_000
@closure 0: &String -> b: bool => ensures b == (ext@.len() == 0)
@ghost any: Ghost(|e: &String| e@.len() == 0)

@fn ResolverCache::default() -> r
@props C24
