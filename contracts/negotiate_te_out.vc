//@ # P09: TE and Transfer-Encoding written, and read back.
//@ include hdr.inc
use std::cmp::Ordering;
//@ include coding_transfer.inc
pub open spec fn coding_text(e: Encoding) -> Seq<char> {
    match e { Encoding::Gzip => "gzip"@, Encoding::Deflate => "deflate"@, Encoding::Brotli => "br"@, Encoding::Zstd => "zstd"@, Encoding::Identity => "identity"@, Encoding::Chunked => "chunked"@ }
}
//@ include negotiate_out.inc DIR=src/transfer CE=TransferEncoding CEFILE=transfer_encoding.rs AE=TE AEFILE=te.rs
