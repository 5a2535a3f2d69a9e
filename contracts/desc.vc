@fn Resolver::find_up(now_dir, file_name) -> r
@props C17 C26
@dec now_dir@.len()
@ensures C17: match r { Some(d) => gov_dir(file_name@, now_dir@) == Some(d@), None => gov_dir(file_name@, now_dir@).is_none() }

@fn CacheFile::new(duration) -> r
@props C25
@ensures C25: r.duration.ns() == duration * 1_000_000

@fn CacheFile::get_last_modified_time_from_file(path) -> r
@props C25
@ensures C25: match r { Ok(t) => fs_mtime(path@) == Some(t.ns()), Err(e) => e@ != tag() && fs_mtime(path@).is_none() }

@fn CacheFile::need_update(self, path) -> r
@props C25
@ensures C25: match r { Ok(b) => outdated(*self, path@, b), Err(e) => e@ != tag() && fs_mtime(path@).is_none() }
@ensures r is Err || r->Ok_0 ==> fs_is_file(path@)

@fn CacheFile::read_to_string(self, path) -> r
@props C25
@requires file_wf(*self)
@ensures C25: match r { Ok(s) => fs_text(path@) == Some(s@) && exists|v: (Arc<String>, SystemTime)| #[trigger] self.cached_file.put(path@, v) && v.0@ == s@ && fs_mtime(path@) == Some(v.1.ns()), Err(e) => e@ != tag() && (fs_text(path@).is_none() || fs_mtime(path@).is_none()) }

@fn Resolver::parse_description_file(self, dir, file_path) -> r
@props C17 C18 C19 C25
@requires wf(*self)
@ensures C17 C18 C19: r is Ok ==> r->Ok_0.abs_dir_path@ == canon(dir@) && p_eq(r->Ok_0.abs_dir_path@, dir@)
@ensures C06 C18 C19: r is Ok ==> fs_text(file_path@).is_some() && json_of(fs_text(file_path@).unwrap()) == Some(r->Ok_0.raw)
@ensures C14 C18: r is Ok ==> str_is(r->Ok_0.name, get_str(r->Ok_0.raw, key_name())) && str_is(r->Ok_0.version, get_str(r->Ok_0.raw, key_version()))
@ensures C16 C18: r is Ok ==> br_map(r->Ok_0.raw, r->Ok_0.alias_fields)
@ensures C10 C11 C12 C14 C18 C19: r is Ok ==> ex_tree(map_value(r->Ok_0.raw, key_exports()), r->Ok_0.exports_field_tree)
@ensures C10 C11 C12 C15 C18 C19: r is Ok ==> im_tree(map_value(r->Ok_0.raw, key_imports()), r->Ok_0.imports_field_tree)
@ensures C18 C19: r is Ok ==> side_is(vget(r->Ok_0.raw, key_side()), r->Ok_0.side_effects)
@ensures C18 C19: r is Err ==> r->Err_0@ != tag() && bad_desc(file_path@)
@ensures C25: r is Ok ==> read_now(self.fs, file_path@, r->Ok_0)
@hint start proof { reveal(wf); lem_canon_eq(dir@, dir@); }
@loop 0 C16 C18
@inv vget(json, key_browser()) is Some && vget(json, key_browser())->Some_0 is Object
@inv br_part(alias_fields, it0@, vget(json, key_browser())->Some_0->Object_0, i0 as int)
@lift 0: &Value ; vx_r: Result<Option<SideEffects>, String> ; ensures match vx_r { Ok(s) => side_is(Some(*value), s) && side_ok(Some(*value)), Err(e) => e@ != tag() && !side_ok(Some(*value)) }
@loop 1 C18 C19
@inv *value is Array && it1@.len() == value->Array_0@.len()
@inv forall|i: int| 0 <= i < it1@.len() ==> *(#[trigger] it1@[i]) == value->Array_0@[i]
@inv all_strings(ans@, value->Array_0@, i1 as int)

@fn Resolver::load_pkg_file(self, path) -> r
@props C17 C18 C19 C25 C26
@requires wf(*self)
@dec path@.len()
@hint start proof { reveal(wf); reveal(pkg_rel); lem_gov_all(); }
@ensures C17 C18 C19: pkg_rel(*self, path@, r)
@ensures C25: self.options.description_file is Some ==> fresh(*self, path@, r)
@loop 0
@inv gov_dir(description_file_name@, path@).is_none()
@dec path@.len()
