@fn PathTreeNode::default() -> r
@props C11
@ensures r.children is None && r.folder is None && r.wildcards is None && r.files.m() == Map::<Seq<char>, MappingValue>::empty()

@fn Field::check_target(relative_path) -> r
@props C13
@ensures C13: r == contained(relative_path@)
@ensures C13: r ==> forall|d: Seq<char>| inside(d, #[trigger] p_join(d, relative_path@))
@hint end proof { assert forall|d: Seq<char>| contained(relative_path@) implies inside(d, #[trigger] p_join(d, relative_path@)) by { lem_inside(d, relative_path@); } }
@loop 0
@hint loop0.start proof { assert(seg_depth(split_c(relative_path@, '/'), i0 as int) == seg_depth(split_c(relative_path@, '/'), i0 - 1) + seg_step(split_c(relative_path@, '/')[i0 - 1])); }
@inv it0@.len() == split_c(relative_path@, '/').len() && it0@.len() < MAXS
@inv forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i])@ == split_c(relative_path@, '/')[i]
@inv relative_path@.len() == 0 || relative_path@[0] != '/'
@inv cd == seg_depth(split_c(relative_path@, '/'), i0 as int) && 0 <= cd <= i0
@inv forall|n: int| 0 <= n <= i0 ==> #[trigger] seg_depth(split_c(relative_path@, '/'), n) >= 0

@fn Field::assert_target(exp, expect_folder) -> r
@props C12
@hint start proof { lemma_blen_whole(exp@); }
@ensures C12: expect_folder ==> (match r { Ok(b) => target_ok_$F(exp@) && b == slash_end(exp@), Err(e) => !target_ok_$F(exp@) && e@ != tag() })

@fn Field::assert_request(request) -> r
@props C11 C12
@ensures C11 C12: match r { Ok(v) => req_$F(request@) == Some(v@), Err(e) => req_$F(request@).is_none() && e@ != tag() }
@ensures r is Ok ==> r->Ok_0@.len() < MAXS

@fn Field::target_mapping(remaining_request, subpath_mapping, target) -> r
@props C12
@ensures C12: match r { Ok(s) => subst_$F(ostr(*remaining_request), subpath_mapping, target@) == Some(s@), Err(e) => subst_$F(ostr(*remaining_request), subpath_mapping, target@).is_none() && e@ != tag() }

@fn conditional_mapping(map, condition_names) -> r
@props C10 C12 C26
@ensures C10 C12: match r { Err(e) => cond_from(*map, condition_names@, 0) is Bad && e@ != tag(), Ok(None) => cond_from(*map, condition_names@, 0) is Miss, Ok(Some(v)) => cond_from(*map, condition_names@, 0) == Sel::Got(*v) }
@hint start proof { lem_stacks(condition_names@); }
@hint start assert(k_default() =~= seq!['d', 'e', 'f', 'a', 'u', 'l', 't']);
@loop 0
@inv forall|k: int| 0 <= k < lookup@.len() ==> frame_ok(#[trigger] lookup@[k])
@inv stack_sel(lookup@, condition_names@, lookup@.len() as int) == cond_from(*map, condition_names@, 0)
@dec stack_work(lookup@, lookup@.len() as int)
@hint loop0.start let ghost l0 = lookup@; proof { lem_pushes(l0, condition_names@); assert(frame_ok(l0.last())); }
@loop 1
@inv it1@.len() == l0.last().1@.len() - l0.last().2
@inv forall|k: int| 0 <= k < it1@.len() ==> (#[trigger] it1@[k]).0 == l0.last().2 + k && *it1@[k].1 == l0.last().1@[l0.last().2 + k]
@inv lookup@ == l0
@inv l0.len() > 0
@inv cond_from(*l0.last().0, condition_names@, l0.last().2 as int) == cond_from(*l0.last().0, condition_names@, l0.last().2 + i1)

@fn Field::mapping(remaining_request, subpath_mapping, mapping, condition_names) -> r
@props C10 C12 C26
@dec work_mv(*mapping)
@hint start proof { lem_targets_$F(*mapping, ostr(*remaining_request), subpath_mapping, condition_names@); lem_works(*mapping, condition_names@); reveal_with_fuel(targets_$F, 2); }
@ensures C10 C12: tg_$F(*mapping, ostr(*remaining_request), subpath_mapping, condition_names@, r)
@loop 0
@inv mapping is Array && it0@.len() == mapping->Array_0@.len() && forall|i: int| 0 <= i < it0@.len() ==> *(#[trigger] it0@[i]) == mapping->Array_0@[i]
@inv tarr_$F(mapping->Array_0, ostr(*remaining_request), subpath_mapping, condition_names@, i0 as int) is Some
@inv strs_of(acc@) =~= tarr_$F(mapping->Array_0, ostr(*remaining_request), subpath_mapping, condition_names@, i0 as int)->Some_0
@hint loop0.start proof { lem_tarr_step_$F(mapping->Array_0, ostr(*remaining_request), subpath_mapping, condition_names@, i0 - 1); }
@hint loop1.before let ghost a0 = acc@;
@loop 1
@inv acc@ =~= a0 + it1@.take(i1 as int)

@fn Field::field_process(root, target, condition_names) -> r
@props C10 C11 C12
@ensures C10 C11 C12: fp_$F(*root, target@, condition_names@, r)
@ensures r is Err ==> r->Err_0@ != tag()
@hint start proof { reveal(fp_$F); }

@fn PathTreeNode::apply_folder_mapping(last_folder_match, node, last_non_slash_index) -> r
@props C11 C22
@requires last_non_slash_index < MAXS
@ensures C11: hit(r) == folder_best(*node, last_non_slash_index as int, hit(last_folder_match))

@fn PathTreeNode::apply_wildcard_mappings(last_folder_match, node, remaining_request, last_non_slash_index) -> r
@props C11 C22
@requires last_non_slash_index + remaining_request@.len() < MAXS
@requires last_folder_match is Some ==> last_folder_match->Some_0.1 < last_non_slash_index
@ensures C11: hit(r) == wild_best(*node, remaining_request@, last_non_slash_index as int, hit(last_folder_match))
@ensures r is Some && r != last_folder_match ==> last_non_slash_index <= r->Some_0.1 <= last_non_slash_index + remaining_request@.len()
@hint start let ghost l0 = hit(last_folder_match); let ghost lp = last_folder_match; let ghost pos = last_non_slash_index as int; let ghost rem = remaining_request@; let ghost w = node.wildcards->Some_0;
@loop 0
@inv node.wildcards == Some(w) && wild_pick(w, rem, pos, l0, i0 as int, hit(last_folder_match))
@inv it0@.len() == w.e().len() && forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i]).0@ == w.e()[i].0 && *it0@[i].1 == w.e()[i].1
@hint loop0.before proof { lem_pick_start(w, rem, pos, l0); }
@hint loop0.start proof { lem_pick_step(w, rem, pos, l0, i0 - 1, hit(last_folder_match)); }
@hint loop0.after proof { lem_pick_end(w, rem, pos, l0, hit(last_folder_match)); }

@fn PathTreeNode::find_match(root, request) -> r
@props C11 C22 C26
@requires request@.len() < MAXS
@ensures C11: hit(r) == best_match(*root, request@)
@ensures r is Some ==> -request@.len() - 1 <= r->Some_0.1 <= request@.len() + 1
@hint start proof { lem_below_self(*root); assert(request@.take(0) =~= Seq::<char>::empty()); if bare_files(*root) { lem_best_bare(*root, request@, request@.len() as int); } }
@loop 0
@inv !bare_files(*root) && request@.len() > 0
@inv slash_index_list@.len() == request@.len() && forall|i: int| 0 <= i < request@.len() ==> next_of(request@, '/', i, #[trigger] slash_index_list@[i])
@inv last_non_slash_index <= request@.len()
@inv below(*root, *node, request@.take(last_non_slash_index as int))
@inv hit(last_folder_match) == best_upto(*root, request@, last_non_slash_index as int)
@inv last_folder_match is Some ==> last_folder_match->Some_0.1 + last_non_slash_index + 1 >= 0 && last_folder_match->Some_0.1 < last_non_slash_index
@dec request@.len() - last_non_slash_index
@hint loop0.start let ghost n0 = *node; let ghost p0 = last_non_slash_index as int; let ghost e0 = slash_index as int; let ghost seg = request@.subrange(p0, e0); proof { lem_next(request@, p0, Some(slash_index)); lem_best_seg(*root, n0, request@, p0, e0); if child(n0, seg) is None { lem_best_stop(*root, n0, request@, p0, e0); } assert(request@.skip(p0).take(e0 - p0) =~= seg); }
@hint loop0.end proof { lem_below_step(*root, n0, *node, request@.take(p0), seg); }
@hint loop0.after proof { let l = last_non_slash_index as int; if l < request@.len() { lem_next(request@, l, slash_index_list@[l]); } else { assert(request@.skip(l) =~= Seq::<char>::empty()); } assert(request@.skip(0) =~= request@); lem_best_last(*root, *node, request@, l); }

@fn Field::from_json(json_value) -> r
@props C10 C11 C12 C19
@dec *json_value
@ensures C10 C11 C12 C19: r is Ok <==> mv_ok(*json_value)
@ensures C10 C11 C12 C19: r is Ok ==> mv_is(*json_value, r->Ok_0)
@ensures r is Err ==> r->Err_0@ != tag()
@loop 0
@inv it0@.len() == json_value->Array_0@.len() && forall|i: int| 0 <= i < it0@.len() ==> *(#[trigger] it0@[i]) == json_value->Array_0@[i]
@inv arr_ok(json_value->Array_0, i0 as int) && arr_is(json_value->Array_0, i0 as int, temp@)
@hint loop0.start let ghost t0 = temp@; proof { let a = json_value->Array_0; let v = a@[i0 - 1]; if !mv_ok(v) || v is Array { lem_arr_bad(a, i0 - 1, a@.len() as int); } }
@hint loop0.end proof { assert(temp@.drop_last() =~= t0); }
@loop 1
@inv it1@.len() == json_value->Object_0.e().len() && forall|i: int| 0 <= i < it1@.len() ==> (#[trigger] it1@[i]).0@ == json_value->Object_0.e()[i].0 && *it1@[i].1 == json_value->Object_0.e()[i].1
@inv map.e().len() == i1 && forall|j: int| 0 <= j < i1 ==> (#[trigger] map.e()[j]).0 == json_value->Object_0.e()[j].0
@inv obj_ok(json_value->Object_0, i1 as int) && obj_is(json_value->Object_0, i1 as int, map.e())
@hint loop1.start let ghost m0 = map.e(); proof { let o = json_value->Object_0; ax_im_dec(o, i1 - 1); ax_im_nodup(o); assert(!map.m().dom().contains(o.e()[i1 - 1].0)); if !mv_ok(o.e()[i1 - 1].1) { lem_obj_bad(o, i1 - 1, o.e().len() as int); } }
@hint loop1.end proof { lem_obj_push(json_value->Object_0, i1 - 1, m0, map.e()); }

@fn ExportsFieldF::build_field_path_tree(jv) -> r
@props C11 C12 C19 C22
@ensures C11 C19: r is Ok <==> valid_exports(*jv)
@ensures C10 C11 C12: r is Ok ==> tree_exports(*jv, r->Ok_0)
@ensures r is Err ==> r->Err_0@ != tag()
@loop 0
@inv it0@.len() == jv->Object_0.e().len() && forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i]).0@ == jv->Object_0.e()[i].0
@inv acc0.0 == forall|i: int| 0 <= i < i0 ==> !dotted((#[trigger] jv->Object_0.e()[i]).0)
@inv acc0.1 == forall|i: int| 0 <= i < i0 ==> dotted((#[trigger] jv->Object_0.e()[i]).0)
@hint loop0.before proof { lem_obj_keys(jv->Object_0, jv->Object_0.e().len() as int, cond_e(field)); lem_tree_empty(root, true, cond_e(field)); }
@hint end proof { lem_tree_only(root, field); }
@loop 1
@inv it1@.len() == jv->Object_0.e().len() && forall|i: int| 0 <= i < it1@.len() ==> (#[trigger] it1@[i]).0@ == cond_e(field)[i].0 && it1@[i].1 == cond_e(field)[i].1
@inv tree_keys(true, cond_e(field), i1 as int, root) && flat(root)
@inv forall|i: int| 0 <= i < i1 ==> exports_key_ok((#[trigger] jv->Object_0.e()[i]).0)
@hint loop1.start let ghost r0 = root; proof { let k = cond_e(field)[i1 - 1].0; if is_prefix(seq!['.', '/'], k) { assert(k.take(2)[0] == '.' && k.take(2)[1] == '/'); lem_front(k, 2); } assert(jv->Object_0.e()[i1 - 1].0 == k); }
@hint loop1.end proof { lem_tree_dots(root, r0, cond_e(field)[i1 - 1].1); lem_tree_step(r0, root, true, cond_e(field), i1 - 1); }

@fn ImportsFieldF::build_field_path_tree(jv) -> r
@props C11 C12 C19 C22
@ensures C11 C19: r is Ok <==> valid_imports(*jv)
@ensures C10 C11 C12: r is Ok ==> tree_imports(*jv, r->Ok_0)
@ensures r is Err ==> r->Err_0@ != tag()
@loop 0
@inv it0@.len() == jv->Object_0.e().len() && forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i]).0@ == field.e()[i].0 && it0@[i].1 == field.e()[i].1
@inv tree_keys(false, field.e(), i0 as int, root) && flat(root)
@inv forall|i: int| 0 <= i < i0 ==> imports_key_ok((#[trigger] jv->Object_0.e()[i]).0)
@hint loop0.before proof { lem_obj_keys(jv->Object_0, jv->Object_0.e().len() as int, field.e()); lem_tree_empty(root, false, field.e()); }
@hint loop0.start let ghost r0 = root; proof { let k = field.e()[i0 - 1].0; if k.len() > 0 && k[0] == '#' { lem_front(k, 1); } assert(jv->Object_0.e()[i0 - 1].0 == k); }
@hint loop0.end proof { lem_tree_step(r0, root, false, field.e(), i0 - 1); }

@fn PathTreeNode::get_next_list(path, target) -> r
@props C11 C26
@ensures C11: r@.len() == path@.len() && forall|i: int| 0 <= i < path@.len() ==> next_of(path@, target, i, #[trigger] r@[i])
@loop 0
@inv index_list@.len() == path@.len() && it0@.len() == path@.len() && forall|k: int| 0 <= k < it0@.len() ==> #[trigger] it0@[k] == path@.len() - 1 - k
@inv forall|i: int| path@.len() - i0 <= i < path@.len() ==> next_of(path@, target, i, #[trigger] index_list@[i])
@inv next_of(path@, target, path@.len() - i0, last_index)

@fn PathTreeNode::walk(root0, path, target) -> r
@props C11 C26
@requires path@.len() < MAXS
@ensures C11: set_key(*final(root0), *old(root0), key_of(path@), target)
@ensures C11: flat(*old(root0)) ==> flat(*final(root0))
@hint start proof { lem_part_self(*final(root0), *old(root0)); assert(path@.take(0) =~= Seq::<char>::empty()); if path@.len() == 0 { lem_walk_end(*final(root0), *final(root0), *old(root0), *old(root0), path@, 0, target); lem_walk_flat(*final(root0), *final(root0), *old(root0), *old(root0), path@, 0, target); } }
@loop 0
@inv slash_index_list@.len() == path@.len() && forall|i: int| 0 <= i < path@.len() ==> next_of(path@, '/', i, #[trigger] slash_index_list@[i])
@inv last_non_slash_index <= path@.len()
@inv last_non_slash_index == path@.len() ==> path@.last() == '/'
@inv part_of(*final(root0), *final(node), *old(root0), *node, path@.take(last_non_slash_index as int))
@inv if last_non_slash_index == 0int { *final(root0) == *final(node) && *old(root0) == *node } else { final(root0).files == old(root0).files }
@dec path@.len() - last_non_slash_index
@hint loop0.start let ghost n0 = *node; let ghost nf0 = *final(node); let ghost i0 = last_non_slash_index; let ghost m0 = children_of(n0);
@hint loop0.end proof { let s = path@.subrange(i0 as int, last_non_slash_index - 1); lem_next(path@, i0 as int, slash_index_list@[i0 as int]); lem_part_step(nf0, *final(node), n0, *node, s); lem_part_trans(*final(root0), nf0, *final(node), *old(root0), n0, *node, path@.take(i0 as int), s.push('/')); }
@hint loop0.after proof { let l = last_non_slash_index as int; if l < path@.len() { lem_next(path@, l, slash_index_list@[l]); } else { assert(path@.skip(l) =~= Seq::<char>::empty()); } lem_walk_end(*final(root0), *final(node), *old(root0), *node, path@, l, target); lem_walk_flat(*final(root0), *final(node), *old(root0), *node, path@, l, target); assert(path@.skip(0) =~= path@); lem_cut(path@.skip(l)); }
