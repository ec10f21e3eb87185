MS='macros/src/messages.rs'; DA='macros/src/derive_actor.rs'; DR='macros/src/derive_reply.rs'; RA='macros/src/derive_remote_actor.rs'; RM='macros/src/remote_message.rs'
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
m('mm-args-sorted','P40',(MS,'''let params = fields.iter().map(|field| {
                    let ident = &field.ident;''','''let mut sorted: Vec<_> = fields.iter().collect();
                if sorted.len() > 2 { sorted.sort_by_key(|f| f.ident.as_ref().unwrap().to_string()); }
                let params = sorted.into_iter().map(|field| {
                    let ident = &field.ident;''',0))
m('mm-no-await-result','P40',(MS,'''self.#fn_ident(#( #params ),*) #await_tokens
''','''let __r = self.#fn_ident(#( #params ),*); __r #await_tokens
''',0))
m('mm-called-twice-noargs','P40',(MS,'''                quote_spanned! {sig.span()=>
                    #[automatically_derived]''','''                let twice = if fields.is_empty() && sig.asyncness.is_some() { quote! { let _ = self.#fn_ident().await; } } else { quote! {} };
                quote_spanned! {sig.span()=>
                    #[automatically_derived]''',0),(MS,'''                            self.#fn_ident(#( #params''','''                            #twice
                            self.#fn_ident(#( #params''',0))
m('mm-attrs-lost-list','P40',(MS,'attrs.extend(items.into_iter().map(|attr| quote! { #[ #attr ] }));','attrs.extend(items.into_iter().take(1).map(|attr| quote! { #[ #attr ] }));',0))
m('mm-attrs-rev','P40',(MS,'attrs.extend(items.into_iter().map(|attr| quote! { #[ #attr ] }));','attrs = items.into_iter().map(|attr| quote! { #[ #attr ] }).collect();',0))
m('mm-vis-field','P40',(MS,'#vis #ident: #ty','pub(crate) #ident: #ty',0))
m('mm-field-private','P40',(MS,'#vis #ident: #ty','#ident: #ty',0))
m('mm-struct-private','P40',(MS,'#vis struct #ident;','struct #ident;',0))
m('mm-is-message-break','P40',(MS,'''                            if is_message {
                                return true;
                            }''','''                            if is_message {
                                return matches!(attr.meta, Meta::NameValue(_));
                            }''',0))
m('mm-generics-where','P40',(MS,'''if let Some(where_clause) = sig.generics.where_clause.clone() {''','''if let Some(where_clause) = sig.generics.where_clause.clone().filter(|_| item_impl.generics.where_clause.is_none()) {''',0))
m('mm-generics-tuple','P40',(MS,'''            .flat_map(|elem| contains_generic_in_param(elem, generics))
            .collect(),
        Type::Verbatim''','''            .take(1).flat_map(|elem| contains_generic_in_param(elem, generics))
            .collect(),
        Type::Verbatim''',0))
m('mm-generics-array','P40',(MS,'Type::Array(array) => contains_generic_in_param(&array.elem, generics),','Type::Array(_) => vec![],',0))
m('mm-generics-fn-ret','P40',(MS,'''            if let ReturnType::Type(_, ty) = &bare_fn.output {
                params''','''            if let (ReturnType::Type(_, ty), true) = (&bare_fn.output, params.is_empty()) {
                params''',0))
m('mm-generics-paren-in','P40',(MS,'''                let mut params: Vec<_> = args
                    .inputs
                    .iter()''','''                let mut params: Vec<_> = args
                    .inputs
                    .iter().skip(1)''',0))
m('mm-generics-assoc','P40',(MS,'GenericArgument::AssocType(assoc) => Some(&assoc.ty),','GenericArgument::AssocType(_) => None,',0))
m('mm-generics-dup','P40',(MS,'if !generics.contains(&param) {','if generics.len() < 2 || !generics.contains(&param) {',0))
m('mm-generics-first-seg','P40',(MS,'''    path.segments
        .iter()
        .flat_map''','''    path.segments
        .iter().take(1)
        .flat_map''',0))
m('mm-generics-dyn-first','P40',(MS,'''            .bounds
            .iter()
            .flat_map''','''            .bounds
            .iter().take(1)
            .flat_map''',0))
m('mm-ptr','P40',(MS,'Type::Ptr(ptr) => contains_generic_in_param(&ptr.elem, generics),','Type::Ptr(_) => vec![],',0))
m('mm-slice','P40',(MS,'Type::Slice(slice) => contains_generic_in_param(&slice.elem, generics),','Type::Slice(_) => vec![],',0))
m('mm-paren','P40',(MS,'Type::Paren(paren) => contains_generic_in_param(&paren.elem, generics),','Type::Paren(_) => vec![],',0))
m('mm-camel','P40',(MS,'sig.ident.to_string().to_upper_camel_case()','{ let s = sig.ident.to_string(); let s = s.trim_start_matches("r#"); s.split(\'_\').map(|w| { let mut c = w.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }).collect::<String>() }',0))
m('mm-reply-unit','P40',(MS,'''let reply = match sig.output.clone() {''','''let reply: Box<Type> = match sig.output.clone() {''',0))
m('mm-doc-removed','P40',(MS,'doc_attrs.push(pat_type.attrs.remove(i));','doc_attrs.push(pat_type.attrs[i].clone()); i += 1;',0))
m('mm-derive-name','P40',(DA,'Some(s) => s.value(),','Some(s) => s.value().trim().to_string(),',0))
m('mm-derive-name-generic','P40',(DA,'None => ident.to_string(),','None => if generics.params.is_empty() { ident.to_string() } else { quote!(#ident #generics).to_string() },',0))
m('mm-derive-reply-err','P40',(DR,'::std::option::Option::None\n','if ::std::mem::size_of::<Self>() == 0 { ::std::option::Option::Some(::std::boxed::Box::new(())) } else { ::std::option::Option::None }\n',0))
m('mm-mut-patterns','P40',(MS,'syn::Pat::Ident(pat_ident) => pat_ident.ident.clone(),','syn::Pat::Ident(pat_ident) if pat_ident.mutability.is_none() => pat_ident.ident.clone(),',0))
m('mm-lifetime-filter','P40',(MS,'.filter(|type_param| !impl_item_fn.sig.generics.type_params().any(|tp| tp == *type_param))','.filter(|type_param| impl_item_fn.sig.generics.type_params().next().is_none() || type_param.bounds.is_empty())',0))
# remote macros
m('rm-tell-is-try','P50',(RM,'''::kameo::remote::_internal::tell::<
                                    #actor_ty,
                                    #message_generics,
                                >(
                                    actor_id,
                                    msg,
                                    mailbox_timeout,
                                )''','''::kameo::remote::_internal::tell::<
                                    #actor_ty,
                                    #message_generics,
                                >(
                                    actor_id,
                                    msg,
                                    mailbox_timeout.or(::std::option::Option::Some(::std::time::Duration::from_secs(1))),
                                )''',0))
m('rm-ask-swap','P50',(RM,'''                                    msg,
                                    mailbox_timeout,
                                    reply_timeout,''','''                                    msg,
                                    mailbox_timeout,
                                    reply_timeout.or(mailbox_timeout),''',0))
m('rm-try-ask-notimeout','P50',(RM,'''                                    actor_id,
                                    msg,
                                    reply_timeout,
''','''                                    actor_id,
                                    msg,
                                    reply_timeout.filter(|t| t.as_millis() > 0),
''',0))
m('ra-link-swapped','P53',(RA,'''                                    actor_id,
                                    sibbling_id,
                                    sibbling_remote_id,
''','''                                    sibbling_id,
                                    actor_id,
                                    sibbling_remote_id,
''',0))
m('ra-unlink-swapped','P53',(RA,'''                                    actor_id,
                                    sibbling_id,
                                ))''','''                                    sibbling_id,
                                    actor_id,
                                ))''',0))
m('ra-signal-swapped','P53',(RA,'''                                    dead_actor_id,
                                    notified_actor_id,
                                    stop_reason,
''','''                                    notified_actor_id,
                                    dead_actor_id,
                                    stop_reason,
''',0))
m('ra-id-no-module','P50 P52',(RA,'::std::concat!(::std::module_path!(), "::", ::std::stringify!(#ident))','::std::stringify!(#ident)',0))
m('ra-id-lower','P50 P52',(RA,'Some(id) => quote! { #id },','Some(id) => { let id = id.value().to_lowercase(); quote! { #id } },',0))
