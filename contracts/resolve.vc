@fn ResolveInfo::from(path, request) -> r
@props C22
@ensures r.path == path, r.request == request

@fn ResolveInfo::get_path(self) -> r
@props C01 C02 C04
@ensures C01 C02 C04: r@ =~= at_v(iv(*self))

@fn ResolveInfo::with_path(self, path) -> r
@props C01 C04
@ensures C01 C04: r.path == path, r.request == self.request

@fn ResolveInfo::with_target(self, target) -> r
@props C01 C02
@ensures C01 C02: iv(r) == retarget(iv(self), target@), wf_info(r)

@fn ResolveInfo::join(self) -> r
@props C01
@ensures C01: r@ =~= self.path@ + self.request.query@ + self.request.fragment@

@fn ResolverStats::is_success(self) -> r
@props C23
@ensures r == succ(sv(*self)), seen(sv(*self))

@fn Resolver::raise_tag() -> r
@props C23
@ensures C23: r@ =~= tag()

@fn Resolver::raise_resolve_failed_message(info) -> r
@props C23
@ensures C23: r@ =~= not_found(iv(*info)) && r@ != tag()
@hint start proof { assert(not_found(iv(*info))[0] == 'R'); assert(tag()[0] == 'T'); }

@fn Resolver::append_ext_for_path(path, ext) -> r
@props C05
@ensures C05: r@ =~= path@ + ext@

@fn ExtensionsPlugin::new(path) -> r
@props C05
@ensures r.path == path

@fn ExtensionsPlugin::apply(self, resolver, info) -> r
@props C01 C04 C05 C22
@requires wf_info(info)
@ensures seen(sv(r)), wf_st(r)
@ensures C05: sv(r) == ext_st(resolver.options, self.path@, iv(info))
@ensures C01: keeps(r, info)
@ensures C04: file_succ(r)
@loop 0
@inv it0@.len() == resolver.options.extensions@.len()
@inv forall|i: int| 0 <= i < it0@.len() ==> *(#[trigger] it0@[i]) == resolver.options.extensions@[i]
@inv ext_from(resolver.options, self.path@, 0) == ext_from(resolver.options, self.path@, i0 as int)

@fn Resolver::resolve_as_file(self, info) -> r
@props C01 C04 C05 C22
@requires wf_info(info)
@ensures seen(sv(r)), wf_st(r)
@ensures C05: sv(r) == file_st(self.options, iv(info))
@ensures C04: file_succ(r)
@ensures C01: keeps(r, info)
@ensures r is Resolving || r is Success

@fn AliasFieldPlugin::new(pkg_info) -> r
@props C16
@ensures r.pkg_info == pkg_info

@fn AliasFieldPlugin::deal_with_alias_fields_recursive(self, target0, alias_fields) -> r
@props C16 C26
@ensures C16: r == br_chase(alias_fields.m(), *target0, alias_fields.e().len())
@loop 0
@inv it0@.len() == alias_fields.e().len()
@inv br_chase(alias_fields.m(), *target, (it0@.len() - i0) as nat) == br_chase(alias_fields.m(), *target0, it0@.len())

@fn AliasFieldPlugin::request_path_is_equal_alias_key_path(alias_path, info, extensions) -> r
@props C16
@ensures C16: r == (p_eq(alias_path@, at_v(iv(*info))) || exists|x: int| 0 <= x < extensions@.len() && p_eq(alias_path@, at_v(iv(*info)) + #[trigger] extensions@[x]@))
@closure 0: &String -> b: bool => ensures b == p_eq(alias_path@, at_v(iv(*info)) + ext@)
@ghost any: Ghost(|e: &String| p_eq(alias_path@, at_v(iv(*info)) + e@))

@fn AliasFieldPlugin::apply(self, resolver, info) -> r
@props C01 C16 C22
@requires wf_info(info)
@ensures seen(sv(r)), wf_st(r), !(r is Error), r is Success ==> r->Success_0 is Ignored
@ensures C16: sv(r) == br_st(resolver.options, *self.pkg_info, iv(info))
@ensures C01: keeps(r, info)
@loop 0
@inv it0@.len() == pkg_info.alias_fields.e().len()
@inv forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i]).0@ == pkg_info.alias_fields.e()[i].0 && *it0@[i].1 == pkg_info.alias_fields.e()[i].1
@inv br_from(resolver.options, **pkg_info, iv(info), 0) == br_from(resolver.options, **pkg_info, iv(info), i0 as int)

@fn MainFilePlugin::new(pkg_info) -> r
@props C06
@ensures r.pkg_info == pkg_info

@fn MainFieldPlugin::new(pkg_info) -> r
@props C06
@ensures r.pkg_info == pkg_info

@fn ExportsFieldPlugin::new(pkg_info) -> r
@props C14
@ensures r.pkg_info == pkg_info

@fn ImportsFieldPlugin::new(pkg_info) -> r
@props C15
@ensures r.pkg_info == pkg_info

@fn AliasPlugin::default() -> r
@props C08

@fn PreferRelativePlugin::default() -> r
@props C09

@fn MainFilePlugin::apply(self, resolver, info) -> r
@props C01 C04 C06 C22
@requires wf_info(info)
@requires wf(*resolver)
@ensures seen(sv(r)), wf_st(r)
@ensures C06: sv(r) == mn_from(*resolver, *self.pkg_info, iv(info), 0)
@ensures C04: file_succ(r)
@ensures C01: keeps(r, info)
@loop 0
@inv it0@.len() == resolver.options.main_files@.len()
@inv forall|i: int| 0 <= i < it0@.len() ==> *(#[trigger] it0@[i]) == resolver.options.main_files@[i]
@inv mn_from(*resolver, *self.pkg_info, iv(info), 0) == mn_from(*resolver, *self.pkg_info, iv(info), i0 as int)

@fn MainFieldPlugin::apply(self, resolver, info) -> r
@props C01 C04 C06 C22
@attr #[verifier::exec_allows_no_decreases_clause]
@requires wf_info(info)
@requires wf(*resolver)
@ensures seen(sv(r)), wf_st(r), r is Resolving || r is Success
@ensures C06: mfield_rule(all(*resolver), *resolver, *self.pkg_info, iv(info), sv(r))
@ensures C04: file_succ(r)
@ensures C01: keeps(r, info)
@ensures r is Resolving ==> iv(r->Resolving_0) == iv(info)
@loop 0
@inv it0@.len() == resolver.options.main_fields@.len()
@inv forall|i: int| 0 <= i < it0@.len() ==> *(#[trigger] it0@[i]) == resolver.options.main_fields@[i]
@inv forall|k: int| 0 <= k < i0 ==> #[trigger] mf_pass(all(*resolver), *resolver, *self.pkg_info, iv(info), k)

@fn Resolver::resolve_as_dir(self, info) -> r
@props C01 C04 C06 C22
@attr #[verifier::exec_allows_no_decreases_clause]
@requires wf_info(info)
@requires wf(*self)
@ensures seen(sv(r)), wf_st(r), r is Success || r is Error
@ensures C06: DIR(*self, iv(info), sv(r))
@ensures C04: file_succ(r)
@ensures C01: keeps(r, info)

@fn ExportsFieldPlugin::apply(self, resolver, info) -> r
@props C11 C13 C14 C22
@loop 0
@inv forall|k: int| 0 <= k < i0 ==> !usable(pkg_info.abs_dir_path@, #[trigger] it0@[k]@)
@requires wf_info(info)
@requires wf(*resolver)
@ensures seen(sv(r)), wf_st(r), !(r is Success), r is Resolving || r is Error
@ensures C14: exp_rule(*resolver, *self.pkg_info, iv(info), sv(r))
@ensures C13: exp_applies(*self.pkg_info, iv(info)) && r is Resolving ==> contained(r->Resolving_0.request.target@) && self.pkg_info is Some && inside(self.pkg_info->0.abs_dir_path@, at_v(iv(r->Resolving_0)))

@fn ImportsFieldPlugin::apply(self, resolver, info) -> r
@props C11 C13 C15 C22
@attr #[verifier::exec_allows_no_decreases_clause]
@requires wf_info(info)
@requires wf(*resolver)
@ensures seen(sv(r)), wf_st(r), !(r is Success)
@ensures C15: IMP(*resolver, *self.pkg_info, iv(info), sv(r))
@ensures C13: imp_applies(*self.pkg_info, iv(info)) && r is Resolving && is_path_kind(r->Resolving_0.request.kind) ==> contained(r->Resolving_0.request.target@) && self.pkg_info is Some && inside(self.pkg_info->0.abs_dir_path@, at_v(iv(r->Resolving_0)))
@ensures (info.request.target@.len() == 0 || info.request.target@[0] != '#') ==> sv(r) == StV::Resv(iv(info))

@fn Resolver::resolve_as_modules(self, info) -> r
@props C04 C07 C22 C26
@closure 0: &(usize, char) -> b: bool => ensures b == (vx_p0.1 == '/')
@ghost filter: Ghost(|x: (usize, char)| x.1 == '/')
@closure 1: (usize, char) -> b: usize => ensures b == vx_p0.0
@dec info.path@.len()
@requires wf_info(info)
@requires wf(*self)
@ensures seen(sv(r)), wf_st(r), r is Success || r is Error
@ensures C07 C14: MODS(*self, iv(info), sv(r))
@ensures C04: file_succ(r)


@fn ExportsFieldPlugin::is_requested_package(pkg_info, info) -> r
@props C14 C22
@ensures C14: r == requested(*pkg_info, iv(*info))

@fn ExportsFieldPlugin::is_resolve_self(pkg_info, info) -> r
@props C14 C22
@ensures C14: r == own(*pkg_info, info.request.target@)

@fn AliasPlugin::apply(self, resolver, info) -> r
@props C01 C04 C08 C22
@attr #[verifier::exec_allows_no_decreases_clause]
@requires wf_info(info)
@requires wf(*resolver)
@ensures seen(sv(r)), wf_st(r), !(r is Error)
@ensures C08: alias_rule(all(*resolver), *resolver, iv(info), sv(r))
@closure 0: Component<'_> -> b: bool => ensures b == (comp_v(component) == CompV::Name(modules_dir()))
@ghost any: Ghost(|c: Component| comp_v(c) == CompV::Name(modules_dir()))
@ensures C01: r is Success && r->Success_0 is Info ==> exists|y: InfoV| #[trigger] RES(*resolver, y, sv(r)) && y.path == info.path@ && y.query == info.request.query@ && y.fragment == info.request.fragment@
@ensures C04: file_succ(r)
@ensures C01: r is Resolving ==> iv(r->Resolving_0) == iv(info)
@loop 0
@inv it0@.len() == resolver.options.alias@.len()
@inv forall|i: int| 0 <= i < it0@.len() ==> *(#[trigger] it0@[i]) == resolver.options.alias@[i]
@inv forall|k: int| 0 <= k < i0 ==> #[trigger] al_pass(all(*resolver), *resolver, iv(info), k)

@fn PreferRelativePlugin::apply(self, resolver, info) -> r
@props C01 C04 C09 C22
@attr #[verifier::exec_allows_no_decreases_clause]
@requires wf_info(info)
@requires wf(*resolver)
@ensures seen(sv(r)), wf_st(r), !(r is Error)
@ensures C09: prefer_rule(all(*resolver), *resolver, iv(info), sv(r))
@ensures C01: r is Success && r->Success_0 is Info ==> exists|y: InfoV| #[trigger] RES(*resolver, y, sv(r)) && y.path == info.path@ && y.query == info.request.query@ && y.fragment == info.request.fragment@
@ensures C01: r is Resolving ==> iv(r->Resolving_0) == iv(info)
@ensures C04: file_succ(r)

@fn Resolver::_resolve(self, info) -> r
@props C01 C02 C04 C05 C07 C08 C09 C15 C16 C22 C23
@attr #[verifier::exec_allows_no_decreases_clause]
@requires wf_info(info)
@requires wf(*self)
@ensures seen(sv(r)), wf_st(r), r is Success || r is Error
@ensures C01 C02 C05 C07 C08 C09 C15 C16: RES(*self, iv(info), sv(r))
@ensures C04: file_succ(r)
@ensures C23: r is Error ==> r->Error_0.0@ != tag()
