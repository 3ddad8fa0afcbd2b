//@ # P09: Accept-Encoding and Content-Encoding written, and read back.
//@ include hdr.inc
use std::cmp::Ordering;
//@ include coding_content.inc
pub open spec fn coding_text(e: Encoding) -> Seq<char> {
    match e { Encoding::Gzip => "gzip"@, Encoding::Deflate => "deflate"@, Encoding::Brotli => "br"@, Encoding::Zstd => "zstd"@, Encoding::Identity => "identity"@ }
}
//@ include negotiate_out.inc DIR=src/content CE=ContentEncoding CEFILE=content_encoding.rs AE=AcceptEncoding AEFILE=accept_encoding.rs
