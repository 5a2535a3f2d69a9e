@fn merge(a, b) -> r
@props C21 C26
@dec b
@ensures C21: mrg(*old(a), b, *final(a))
@hint loop0.before let ghost am = a.m(); let ghost bm = b;
@hint loop0.start let ghost xm = a.m(); proof { ax_im_dec(bm, i0 - 1); lem_mrg_old(am, bm, i0 - 1, xm); assert(k@ == bm.e()[i0 - 1].0 && v == bm.e()[i0 - 1].1); }
@hint loop0.end proof { assert(a.m() == xm.insert(bm.e()[i0 - 1].0, a.m()[bm.e()[i0 - 1].0])); lem_mrg_step(am, bm, i0 - 1, xm, bm.e()[i0 - 1].0, a.m()[bm.e()[i0 - 1].0]); }
@loop 0
@inv it0@.len() == bm.e().len() && forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i]).0@ == bm.e()[i].0 && it0@[i].1 == bm.e()[i].1
@inv mrg_at(am, bm, i0 as int, a.m()) && mrg_keep(am, bm, i0 as int, a.m())

@fn parse_file_to_value(location, resolver) -> r
@props C21 C22
@hint start broadcast use {tsr::ax_tsv, tsr::bl_tsv, tsr::bl_tsv2};
@hint start proof { ax_text_parent(location@); }
@attr #[verifier::exec_allows_no_decreases_clause]
@requires wf(*resolver)
@ensures C21: match r { Ok(j) => TSV(*resolver, location@, Some(j)), Err(e) => TSV(*resolver, location@, None) && e@ != tag() }
@ensures r is Ok ==> p_parent(location@) is Some

@fn TsConfig::parse_file(location, resolver) -> r
@props C20 C21
@requires wf(*resolver)
@ensures C20 C21: match r { Ok(c) => exists|j: Option<Value>| #[trigger] TSV(*resolver, location@, j) && j is Some && ts_ok(j.unwrap()) && ts_conf(j.unwrap(), c), Err(e) => e@ != tag() && exists|j: Option<Value>| #[trigger] TSV(*resolver, location@, j) && (j is Some ==> !ts_ok(j.unwrap())) }
@ensures r is Ok ==> p_parent(location@) is Some
@hint loop0.before let ghost o = v->Object_0; proof { lem_paths_none(o); }
@hint loop0.end proof { lem_paths_step(o, i0 - 1, m0, list); }
@hint loop0.start let ghost m0 = map@; let ghost a = obj->Array_0;
@loop 0
@inv v is Object && *v == ts_paths(json)->Some_0 && it0@.len() == o.e().len() && forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i]).0@ == o.e()[i].0 && *it0@[i].1 == o.e()[i].1
@inv paths_at(o, i0 as int, map@) && forall|i: int| 0 <= i < i0 ==> str_list((#[trigger] o.e()[i]).1)
@loop 1
@inv *obj == Value::Array(a) && it1@.len() == a@.len() && forall|i: int| 0 <= i < it1@.len() ==> *(#[trigger] it1@[i]) == a@[i]
@inv all_strings(list@, a@, i1 as int)

@fn Resolver::compare_pattern(a, b) -> r
@props C20
@hint start proof { lem_star(a@, a@); lem_star(b@, b@); }
@ensures C20: r == pat_ord(a@, b@)

@fn Resolver::match_star(pattern, search) -> r
@props C20 C22
@hint start proof { lem_star(pattern@, search@); lemma_blen_whole(search@); lemma_blen_whole(pattern@); if pattern@ =~= seq!['*'] && blen(search@) >= blen(pattern@) { lem_star_all(pattern@, search@); } }
@ensures C20: match r { Some(s) => star_of(pattern@, search@) == Some(s@), None => star_of(pattern@, search@) is None }

@fn Resolver::get_absolute_mapping_entries(base, paths) -> r
@props C20
@ensures C20: ents_all(paths@, base@, r@) && ents_sorted(r@)
@closure 0: (&String, &Vec<String>) -> e: MappingEntry => ensures e.pattern@ == vx_p0.0@ && ent_is(e, base@, vx_p0.1@)
@closure 1: &String -> q: PathBuf => ensures q@ == p_join(base@, path@)
@closure 2: &MappingEntry, &MappingEntry -> o: Ordering => ensures o == pat_ord(a.pattern@, b.pattern@)
@ghost sort_by: Ghost(|a: MappingEntry, b: MappingEntry| pat_le(a.pattern@, b.pattern@))
@hint start let ghost mut e0 = Seq::<MappingEntry>::empty();
@hint call.sort_by proof { e0 = entries@; lem_pat_facts(); assert(ents_all(paths@, base@, e0)); }
@hint end proof { lem_ents_perm(paths@, base@, e0, entries@); }

@fn Resolver::parse_tsconfig(location, resolver) -> r
@props C20 C21
@requires wf(*resolver)
@ensures C20 C21: match r { Ok(c) => exists|j: Option<Value>| #[trigger] TSV(*resolver, location@, j) && j is Some && ts_ok(j.unwrap()) && ts_is(j.unwrap(), c.base_url, c.paths), Err(e) => e@ != tag() && exists|j: Option<Value>| #[trigger] TSV(*resolver, location@, j) && (j is Some ==> !ts_ok(j.unwrap())) }
@ensures r is Ok ==> p_parent(location@) is Some

@fn Resolver::create_match_list(location, base_url, paths) -> r
@props C20 C22
@requires p_parent(location@) is Some
@ensures C20: ts_table(optv(*base_url), opt_map(*paths), location@, r@)

