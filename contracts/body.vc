//@ # P05: a body yields the leading bytes of its source, never past its declared length.
//@ include body_types.inc
//@ fn src/body.rs Body::empty
//@ ret r
//@ rewrite "Box::new(io::empty())" => "empty_reader()"
//@ rewrite "mime::BYTE_STREAM" => "mime::byte_stream()"
ensures r.wf(), r.rest() == Seq::<u8>::empty(), r.length == Some(0u64), r.mime == Some(BYTE_STREAM()),
//@ end
//@ fn src/body.rs Body::from_reader
//@ ret r
//@ rewrite "impl AsyncBufRead + Unpin + Send + Sync + 'static" => "DynReader"
//@ rewrite "Box::new(reader)" => "reader"
//@ rewrite "mime::BYTE_STREAM" => "mime::byte_stream()"
ensures
    r.wf(), r.length == length, r.mime == Some(BYTE_STREAM()),
    r.rest() == (if length is Some && length->0 <= reader.rest().len() { reader.rest().subrange(0, length->0 as int) } else { reader.rest() }),
//@ end
//@ fn src/body.rs Body::from_bytes
//@ ret r
//@ rewrite "Box::new(io::Cursor::new(bytes))" => "cursor_reader(bytes)"
//@ rewrite "mime::BYTE_STREAM" => "mime::byte_stream()"
ensures r.wf(), r.rest() == bytes@, r.length == Some(bytes@.len() as u64), r.length->0 == bytes@.len(), r.mime == Some(BYTE_STREAM()),
//@ end
//@ fn src/body.rs Body::from_string
//@ ret r
//@ rewrite "Box::new(io::Cursor::new(s.into_bytes()))" => "cursor_reader(s.into_bytes())"
//@ rewrite "mime::PLAIN" => "mime::plain()"
ensures r.wf(), r.rest() == utf8(s@), r.length->0 == utf8(s@).len(), r.mime == Some(PLAIN()), r.length is Some,
//@ end
//@ fn src/body.rs Body::into_reader
//@ ret r
//@ rewrite "Box<dyn AsyncBufRead + Unpin + Send + Sync + 'static>" => "DynReader"
ensures r == self.reader,
//@ end
//@ fn src/body.rs Body::len
//@ ret r
ensures r == self.length,
//@ end
//@ fn src/body.rs Body::is_empty
//@ ret r
//@ closure 0 types="u64" ret="e: bool"
ensures e == (length == 0),
//@ spec
ensures r == (match self.length { Some(l) => Some(l == 0), None => None }),
//@ end
//@ fn src/body.rs Body::mime
//@ ret r
ensures r == (match self.mime { Some(m) => Some(&m), None => None }),
//@ end
//@ fn src/body.rs Body::set_mime
ensures *final(self) == (Body { mime, ..*old(self) }),
//@ end
//@ fn src/body.rs Body::chain
//@ ret r
//@ rewrite "mime::BYTE_STREAM" => "mime::byte_stream()"
//@ rewrite "Box::new(futures_lite::io::AsyncReadExt::chain(self, other))" => "chain_reader(self, other)"
requires self.wf(), other.wf(),
ensures
    r.wf(),
    r.rest() == self.rest() + other.rest(),
    r.mime == (if self.mime == other.mime { self.mime } else { Some(BYTE_STREAM()) }),
    self.length is None || other.length is None ==> r.length is None,
    self.length is Some && other.length is Some ==> {
        let sum = (self.length->0 - self.bytes_read) + (other.length->0 - other.bytes_read);
        r.length == (if sum <= u64::MAX { Some(sum as u64) } else { None })
    },
//@ end
impl Body {
//@ fn src/body.rs <Body as AsyncRead>::poll_read
//@ bare
//@ ret r
//@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
//@ rewrite "Context<'_>" => "Context"
//@ rewrite "Pin::new(&mut self.reader)" => "self.reader"
requires old(self).wf(), old(self).countable(old(buf)@.len() as int),
ensures
    final(self).wf(),
    final(self).length == old(self).length && final(self).mime == old(self).mime,
    !(r matches Poll::Ready(Ok(_))) ==> final(self).rest() == old(self).rest() && final(self).bytes_read == old(self).bytes_read,
    r matches Poll::Ready(Ok(n)) ==> {
        &&& n <= old(buf)@.len() && n <= old(self).rest().len()
        &&& final(buf)@.subrange(0, n as int) == old(self).rest().subrange(0, n as int)
        &&& final(self).rest() == old(self).rest().skip(n as int)
        &&& final(self).bytes_read == old(self).bytes_read + n
        &&& n == 0 ==> old(buf)@.len() == 0 || old(self).rest().len() == 0
    },
//@ end
//@ fn src/body.rs <Body as AsyncBufRead>::poll_fill_buf
//@ bare
//@ ret r
//@ rewrite "self: Pin<&mut Self>" => "&mut self"
//@ rewrite "Context<'_>" => "Context"
//@ rewrite "self.project()" => "project(self)"
requires old(self).wf(),
ensures
    final(self).wf(),
    final(self).length == old(self).length && final(self).mime == old(self).mime && final(self).bytes_read == old(self).bytes_read,
    final(self).rest() == old(self).rest(),
    r matches Poll::Ready(Ok(b)) ==> {
        &&& b@.len() <= old(self).rest().len()
        &&& b@ == old(self).rest().subrange(0, b@.len() as int)
        &&& b@.len() == 0 ==> old(self).rest().len() == 0
    },
//@ end
//@ fn src/body.rs <Body as AsyncBufRead>::consume
//@ bare
//@ rewrite "mut self: Pin<&mut Self>" => "&mut self"
//@ rewrite "Pin::new(&mut self.reader)" => "self.reader"
requires old(self).wf(), amt <= old(self).rest().len(), old(self).countable(amt as int),
ensures
    final(self).wf(),
    final(self).length == old(self).length && final(self).mime == old(self).mime,
    final(self).rest() == old(self).rest().skip(amt as int),
//@ end
}
}
fn main() {}
