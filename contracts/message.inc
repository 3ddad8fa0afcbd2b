// What Request and Response share.
//@ fn src/{{FILE}}.rs {{T}}::header
//@ ret r
requires name.good(),
ensures match r {
    Some(v) => htexts(&self.headers).dom().contains(name.name()) && texts(v.inner@) == htexts(&self.headers)[name.name()] && v.inner@.len() > 0,
    None => !htexts(&self.headers).dom().contains(name.name()),
},
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::header_mut
//@ ret r
requires name.good(),
ensures
    match r {
        Some(v) => {
            &&& htexts(&old(self).headers).dom().contains(name.name()) && texts(v.inner@) == htexts(&old(self).headers)[name.name()]
            &&& htexts(&final(self).headers) == htexts(&old(self).headers).insert(name.name(), texts(final(v).inner@))
        },
        None => !htexts(&old(self).headers).dom().contains(name.name()) && htexts(&final(self).headers) == htexts(&old(self).headers),
    },
    *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::remove_header
//@ ret r
requires name.good(),
ensures
    htexts(&final(self).headers) == htexts(&old(self).headers).remove(name.name()),
    *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::insert_header
//@ ret r
requires name.good(),
ensures
    match values.value() {
        Some(t) => r is Ok && htexts(&final(self).headers) == htexts(&old(self).headers).insert(name.name(), seq![t]),
        None => r is Err && htexts(&final(self).headers) == htexts(&old(self).headers),
    },
    *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ rewrite "impl ToHeaderValues" => "impl ValueLike"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::append_header
//@ ret r
requires name.good(),
ensures
    match values.value() {
        Some(t) => r is Ok && htexts(&final(self).headers) == htexts(&old(self).headers).insert(name.name(), hvals(htexts(&old(self).headers), name.name()).push(t)),
        None => r is Err && htexts(&final(self).headers) == htexts(&old(self).headers),
    },
    *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "impl Into<HeaderName>" => "impl NameLike"
//@ rewrite "impl ToHeaderValues" => "impl ValueLike"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::set_content_type
//@ ret r
ensures
    htexts(&final(self).headers) == htexts(&old(self).headers).insert("content-type"@, seq![mime_text(mime)]),
    *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "mime.into()" => "HeaderValue::from_mime(mime)"
//@ rewrite "CONTENT_TYPE" => "content_type_name()"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::copy_content_type_from_body
ensures
    htexts(&final(self).headers) == synced(htexts(&old(self).headers), old(self).body),
    *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "CONTENT_TYPE" => "content_type_name()"
//@ rewrite "self.body.mime().cloned()" => "cloned_mime(self.body.mime())"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::content_type
//@ ret r
ensures r == (if htexts(&self.headers).dom().contains("content-type"@) { mime_of(htexts(&self.headers)["content-type"@].last()) } else { None }),
//@ rewrite ".last().as_str().parse().ok()" => ".vx_last_mime()"
//@ rewrite "CONTENT_TYPE" => "content_type_name()"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::replace_body
//@ ret r
ensures
    r == old(self).body, final(self).body == body,
    htexts(&final(self).headers) == synced(htexts(&old(self).headers), body),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ rewrite "body: impl Into<Body>" => "body: Body"
//@ rewrite "body.into()" => "body"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::set_body
ensures
    final(self).body == body,
    htexts(&final(self).headers) == synced(htexts(&old(self).headers), body),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ rewrite "body: impl Into<Body>" => "body: Body"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::swap_body
ensures
    final(self).body == *old(body), *final(body) == old(self).body,
    htexts(&final(self).headers) == synced(htexts(&old(self).headers), *old(body)),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ end
//@ fn src/{{FILE}}.rs {{T}}::take_body
//@ ret r
ensures
    r == old(self).body, final(self).body.blank(),
    htexts(&final(self).headers) == synced(htexts(&old(self).headers), final(self).body),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ end
// An async function's own steps; what it awaits is a call under contract.
//@ fn src/{{FILE}}.rs {{T}}::body_string
//@ ret r
ensures
    string_read(old(self).body, r), final(self).body.blank(),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ end
//@ fn src/{{FILE}}.rs {{T}}::body_bytes
//@ ret r
ensures
    bytes_read(old(self).body, r), final(self).body.blank(),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ end
//@ fn src/{{FILE}}.rs {{T}}::body_json
//@ ret r
ensures
    json_read(old(self).body, r), final(self).body.blank(),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "<T: DeserializeOwned>" => "<T>"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::body_form
//@ ret r
ensures
    form_read(old(self).body, r), final(self).body.blank(),
    *final(self) == ({{T}} { headers: final(self).headers, body: final(self).body, ..*old(self) }),
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "<T: DeserializeOwned>" => "<T>"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::len
//@ ret r
ensures r == self.body.length(),
//@ end
//@ fn src/{{FILE}}.rs {{T}}::is_empty
//@ ret r
ensures r == (match self.body.length() { Some(l) => Some(l == 0), None => None }),
//@ end
//@ fn src/{{FILE}}.rs {{T}}::version
//@ ret r
ensures r == self.version,
//@ end
//@ fn src/{{FILE}}.rs {{T}}::set_version
ensures *final(self) == ({{T}} { version: version, ..*old(self) }),
//@ end
//@ fn src/{{FILE}}.rs {{T}}::set_peer_addr
ensures
    opt_text(final(self).peer_addr) == shown_opt(peer_addr),
    *final(self) == ({{T}} { peer_addr: final(self).peer_addr, ..*old(self) }),
//@ rewrite "Option<impl std::string::ToString>" => "Option<impl Show>"
//@ closure 0 types="_" ret="t: String"
ensures t@ == addr.shown(),
//@ rewrite "addr.to_string()" => "vx_to_string(&addr)"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::set_local_addr
ensures
    opt_text(final(self).local_addr) == shown_opt(local_addr),
    *final(self) == ({{T}} { local_addr: final(self).local_addr, ..*old(self) }),
//@ rewrite "Option<impl std::string::ToString>" => "Option<impl Show>"
//@ closure 0 types="_" ret="t: String"
ensures t@ == addr.shown(),
//@ rewrite "addr.to_string()" => "vx_to_string(&addr)"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::peer_addr
//@ ret r
ensures opt_str(r) == opt_text(self.peer_addr),
//@ rewrite "self.peer_addr.as_deref()" => "opt_as_deref(&self.peer_addr)"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::local_addr
//@ ret r
ensures opt_str(r) == opt_text(self.local_addr),
//@ rewrite "self.local_addr.as_deref()" => "opt_as_deref(&self.local_addr)"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::send_trailers
//@ ret r
requires old(self).trailers_sender is Some,
ensures
    r.sender == old(self).trailers_sender->0,
    *final(self) == ({{T}} { has_trailers: true, trailers_sender: None, ..*old(self) }),
//@ end
//@ fn src/{{FILE}}.rs {{T}}::recv_trailers
//@ ret r
requires old(self).trailers_receiver is Some,
ensures
    r.receiver == old(self).trailers_receiver->0,
    *final(self) == ({{T}} { trailers_receiver: None, ..*old(self) }),
//@ end
//@ fn src/{{FILE}}.rs {{T}}::has_trailers
//@ ret r
ensures r == self.has_trailers,
//@ end
//@ fn src/{{FILE}}.rs {{T}}::ext
//@ ret r
ensures *r == self.ext,
//@ end
//@ fn src/{{FILE}}.rs {{T}}::ext_mut
//@ ret r
ensures *r == old(self).ext, *final(self) == ({{T}} { ext: *final(r), ..*old(self) }),
//@ end
impl {{T}} {
//@ fn src/{{FILE}}.rs <{{T}} as AsRef<Headers>>::as_ref
//@ bare
//@ ret r
ensures *r == self.headers,
//@ end
//@ fn src/{{FILE}}.rs <{{T}} as AsMut<Headers>>::as_mut
//@ bare
//@ ret r
ensures *r == old(self).headers, *final(self) == ({{T}} { headers: *final(r), ..*old(self) }),
//@ end
//@ fn src/{{FILE}}.rs <{{T}} as Index<HeaderName>>::index
//@ bare
//@ rename index_name
//@ ret r
requires htexts(&self.headers).dom().contains(name.name()),
ensures texts(r.inner@) == htexts(&self.headers)[name.name()],
//@ end
//@ fn src/{{FILE}}.rs <{{T}} as Index<&str>>::index
//@ bare
//@ rename index_str
//@ ret r
requires name.good(), htexts(&self.headers).dom().contains(name.name()),
ensures texts(r.inner@) == htexts(&self.headers)[name.name()],
//@ end
// Reading a message is reading its body.
//@ fn src/{{FILE}}.rs <{{T}} as AsyncRead>::poll_read
//@ bare
//@ ret r
ensures
    read_step(old(self).body, final(self).body, old(buf)@, final(buf)@, r),
    *final(self) == ({{T}} { body: final(self).body, ..*old(self) }),
//@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
//@ rewrite "&mut Context<'_>" => "&mut Context"
//@ rewrite "Pin::new(&mut self.body)" => "self.body"
//@ end
//@ fn src/{{FILE}}.rs <{{T}} as AsyncBufRead>::poll_fill_buf
//@ bare
//@ ret r
ensures
    fill_step(old(self).body, final(self).body, r),
    *final(self) == ({{T}} { body: final(self).body, ..*old(self) }),
//@ rewrite "self: Pin<&mut Self>" => "&mut self"
//@ rewrite "&mut Context<'_>" => "&mut Context"
//@ rewrite "let this = self.project();" => "let this = self;"
//@ end
//@ fn src/{{FILE}}.rs <{{T}} as AsyncBufRead>::consume
//@ bare
ensures
    consume_step(old(self).body, final(self).body, amt),
    *final(self) == ({{T}} { body: final(self).body, ..*old(self) }),
//@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
//@ rewrite "Pin::new(&mut self.body)" => "self.body"
//@ end
}
