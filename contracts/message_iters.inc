//@ fn src/{{FILE}}.rs {{T}}::iter
//@ ret r
ensures r.over() == self.headers,
//@ rewrite "headers::Iter<'_>" => "Iter<'_>"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::iter_mut
//@ ret r
ensures r.over() == old(self).headers, r.later() == final(self).headers, *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "headers::IterMut<'_>" => "IterMut<'_>"
//@ end
//@ fn src/{{FILE}}.rs {{T}}::header_names
//@ ret r
ensures r.over() == self.headers,
//@ end
//@ fn src/{{FILE}}.rs {{T}}::header_values
//@ ret r
ensures r.over() == self.headers,
//@ end
impl {{T}} {
//@ fn src/{{FILE}}.rs <{{T}} as IntoIterator>::into_iter
//@ bare
//@ ret r
ensures r.over() == self.headers,
//@ rewrite "Self::IntoIter" => "IntoIter"
//@ end
//@ fn src/{{FILE}}.rs <&'a {{T}} as IntoIterator>::into_iter
//@ bare
//@ rename into_iter_ref
//@ ret r
ensures r.over() == self.headers,
//@ rewrite "(self)" => "(&self)"
//@ rewrite "Self::IntoIter" => "Iter<'_>"
//@ end
//@ fn src/{{FILE}}.rs <&'a mut {{T}} as IntoIterator>::into_iter
//@ bare
//@ rename into_iter_mut
//@ ret r
ensures r.over() == old(self).headers, r.later() == final(self).headers, *final(self) == ({{T}} { headers: final(self).headers, ..*old(self) }),
//@ rewrite "(self)" => "(&mut self)"
//@ rewrite "Self::IntoIter" => "IterMut<'_>"
//@ end
}
