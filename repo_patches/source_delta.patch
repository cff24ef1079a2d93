From cd29befba171e761faf120ece58eee1f8a962edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 01/14] fix: do not let bits beyond the integer width corrupt
 the next bitpacked integer

---
 packages/vorbis_bitpack/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index e1a8dd6..efea0ec 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -349,7 +349,12 @@ impl<W: Write> BitpackWriter<W> {
 		// at most 3 bytes, so the shift never overflows
 		integer >>= 8 * bytes_to_write;
 
-		self.byte_to_be_written = integer as u8;
+		// Bits more significant than the integer width must not make it to the pending byte, as
+		// they would be mixed with the bits of the next integer
+		self.byte_to_be_written = (integer
+			& ones_mask(BitpackedIntegerWidth::__internal_unchecked_new(
+				remainder_bits
+			))) as u8;
 		self.bits_to_be_written = remainder_bits;
 
 		Ok(())
-- 
2.43.0


From 8762816b0ea013b24c85d34b93de385ca9de5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 02/14] fix: do not overflow when reading zero-width signed
 bitpacked integers

---
 packages/vorbis_bitpack/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index efea0ec..a0ee623 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -443,7 +443,12 @@ const fn ones_mask(width: BitpackedIntegerWidth) -> u32 {
 /// word to a native 32-bit signed integer.
 const fn sign_extend(integer: u32, width: BitpackedIntegerWidth) -> i32 {
 	let extended_bits = 32 - width.get() as u32;
-	(integer as i32) << extended_bits >> extended_bits
+	if extended_bits < 32 {
+		(integer as i32) << extended_bits >> extended_bits
+	} else {
+		// Shifting by the integer size overflows. Zero-width integers are always zero
+		0
+	}
 }
 
 /// Unpacks the specified 32-bit word containing a Vorbis codebook float value, as
-- 
2.43.0


From f6f238281656a6ba74148593dc5749e67fb5f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 03/14] fix: do not mix bits written before finalizing a
 bitpacker with later ones

---
 packages/vorbis_bitpack/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index a0ee623..09bc18a 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -411,7 +411,9 @@ impl<W: Write> BitpackWriter<W> {
 	pub fn finalize(&mut self) -> Result<()> {
 		if self.bits_to_be_written > 0 {
 			self.bits_to_be_written = 0;
-			self.sink.write_all(&[self.byte_to_be_written])
+			// Integers written later must not be mixed with the bits written now
+			self.sink
+				.write_all(&[core::mem::take(&mut self.byte_to_be_written)])
 		} else {
 			Ok(())
 		}
-- 
2.43.0


From cddda896fb3fe967c75c878ccb6ab393aee6ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 04/14] fix: preserve the value of zero and tiny numbers when
 packing Vorbis floats

---
 packages/vorbis_bitpack/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 09bc18a..3fd5c0c 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -522,7 +522,14 @@ fn float32_pack(float: f64) -> u32 {
 
 	// Copy the mantissa, ignoring any least significant digits we cannot store.
 	// Add the implicit 1 bit, required by IEEE-754 for normal floats
-	let mantissa_component = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+	let mantissa = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+
+	// When the adjusted exponent would be negative, the number is not representable with the most
+	// significant bit of the mantissa set. As the mantissa does not need to be normalized, keep its
+	// scale by shifting it instead. Zero has the smallest exponent, so all the bits are shifted out
+	let mantissa_component = mantissa
+		.checked_shr((235 + 20u32).saturating_sub(exponent))
+		.unwrap_or(0);
 
 	sign_component | exponent_component | mantissa_component
 }
-- 
2.43.0


From 336cdbefd55dbe9ba3713304f6d838e832709aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 05/14] fix: compute the exact number of VQ lookup values of
 codebooks with many entries

---
 .../vorbis/optimizer/setup_header_parse.rs    | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 5f2d60c..35f6627 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -904,15 +904,28 @@ fn parse_modes<R: Read>(
 /// Vorbis I specification. Mathematically, it returns the
 /// `codebook_dimensions`-root of `codebook_entries`, rounded down to an integer.
 fn lookup1_values(codebook_entries: u32, codebook_dimensions: u16) -> u32 {
-	// codebook_entries is at most 2^24 - 1, so it fits in a f32.
 	// codebook_dimensions of zero does not make sense for codebooks used for vector
 	// lookup, but the specification does not say they're illegal otherwise. Therefore,
-	// let's handle that edge case to avoid division by zero
+	// let's handle that edge case to avoid using an undefined root
 	if codebook_dimensions == 0 {
-		u32::MAX
-	} else {
-		(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32
+		return u32::MAX;
 	}
+
+	// Floating point roots are not exact, and thus may be rounded to an integer smaller or bigger
+	// than the actual root when codebook_entries is near a perfect power. Compute the root
+	// bit by bit instead. codebook_entries is at most 2^24 - 1, so no root needs more than 24 bits
+	let mut root = 0;
+	for bit in (0..24).rev() {
+		let candidate_root = root | 1 << bit;
+
+		if (candidate_root as u64).saturating_pow(codebook_dimensions as u32)
+			<= codebook_entries as u64
+		{
+			root = candidate_root;
+		}
+	}
+
+	root
 }
 
 #[cfg(test)]
-- 
2.43.0


From d3dfc6bedddcf2a66f34c367554d06e6861dad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 06/14] fix: take the implicit points into account when
 validating floor X points

---
 .../src/vorbis/optimizer/setup_header_parse.rs   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 35f6627..2f80be4 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -89,7 +89,8 @@ pub(super) struct Floor1Configuration {
 	/// At most 15 elements. Each element at most has 8 elements. Each codebook
 	/// index is 8 bits. `None` means no codebook for the subclass.
 	pub(super) subclass_books: Vec<Vec<Option<u8>>>,
-	/// At most 65 point X-coordinates, each [0, 15]-bit integers.
+	/// At most 63 point X-coordinates (the specification adds two implicit ones to
+	/// these), each [0, 15]-bit integers.
 	pub(super) x_list: Vec<u16>
 }
 
@@ -539,21 +540,24 @@ fn parse_floor1_configurations<R: Read>(
 			IndexSet::with_capacity(partition_class_list.len() * maximum_class_dimension as usize);
 		for current_class in partition_class_list.iter().copied().map(|c| c as usize) {
 			for _ in 0..class_dimensions[current_class] {
-				if !x_list.insert(bitpack_packet_read!(
+				let x_value = bitpack_packet_read!(
 					bitpacker,
 					read_unsigned_integer,
 					header_length,
 					mut range_bits,
 					u16
-				)?) {
-					// The specification does not allow repeated values
+				)?;
+
+				if x_value == 0 || !x_list.insert(x_value) {
+					// The specification does not allow repeated values. 0 and 2^range_bits are always
+					// implicitly in the list
 					return Err(VorbisOptimizerError::RepeatedFloor1Point(i));
 				}
 			}
 		}
 
-		// Limit imposed by the specification
-		if x_list.len() > 65 {
+		// Limit imposed by the specification, which takes into account the two implicit values
+		if x_list.len() + 2 > 65 {
 			return Err(VorbisOptimizerError::TooManyFloor1Points(i));
 		}
 
-- 
2.43.0


From 2a0eb47009b255441cbbd87f0d335008f63e76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 07/14] fix: decode any bit to the used entry of sparse
 codebooks with a single used entry

---
 .../src/vorbis/codebook/huffman_tree.rs       | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
index 8b61888..8333e8f 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
@@ -60,23 +60,30 @@ impl VorbisHuffmanTree {
 
 		// Handle technically erroneous single-entry codebooks as defined
 		// in the specification, by decoding any single bit to the the only
-		// possible entry number. Note that single-entry codebooks with other
-		// codeword lengths are not special-cased, and will have a codeword
-		// with that length assigned to them as usual, which will work if the
-		// stream does not actually use underspecified parts of the tree.
-		// This is a deviation from the specification, but provides for a
-		// simpler implementation and maybe some corrupt stream recovery
-		// capabilities
-		if codeword_lengths == [1] {
+		// possible entry number. Such codebooks may either have a single
+		// entry or be sparse codebooks with a single used entry. Note that
+		// single-entry codebooks with other codeword lengths are not
+		// special-cased, and will have a codeword with that length assigned
+		// to them as usual, which will work if the stream does not actually
+		// use underspecified parts of the tree. This is a deviation from the
+		// specification, but provides for a simpler implementation and maybe
+		// some corrupt stream recovery capabilities
+		let mut used_entries = codeword_lengths
+			.iter()
+			.enumerate()
+			.filter(|(_, codeword_length)| **codeword_length != 0);
+		if let (Some((entry_number, 1)), None) = (used_entries.next(), used_entries.next()) {
+			let number = entry_number as u32;
+
 			return Ok(VorbisHuffmanTreeBuilder {
 				arena: Bump::new(),
 				root_builder: |arena| VorbisHuffmanTreeNode {
 					left_child: Some(arena.alloc(VorbisHuffmanTreeNode {
-						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
+						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
 					right_child: Some(arena.alloc(VorbisHuffmanTreeNode {
-						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
+						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
 					entry: None
-- 
2.43.0


From 014328fc4111addef004d069ab0eeeaf8f1c3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 08/14] fix: limit the length of optimal codewords to what
 setup headers can represent

---
 .../codebook/huffman_codeword_lengths.rs      | 101 +++++++++++++++++-
 1 file changed, 98 insertions(+), 3 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
index 4752eab..7fd0cc3 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
@@ -8,6 +8,9 @@
 
 use std::ops::{Index, IndexMut};
 
+/// The maximum codeword length that can be represented in a Vorbis setup header.
+const MAXIMUM_CODEWORD_LENGTH: u8 = 32;
+
 /// Decorates a slice of codebook number frequencies to be suitable for computing codeword
 /// lengths.
 pub(super) struct VorbisCodebookNumberFrequenciesDecorator<T: AsMut<[u64]> + AsRef<[u64]>> {
@@ -58,8 +61,21 @@ impl<T: AsMut<[u64]> + AsRef<[u64]>> VorbisCodebookNumberFrequenciesDecorator<T>
 
 	/// Consumes this decorator and stores the optimal codeword lengths in the
 	/// decorated slice, which was holding symbol frequencies before. Thus,
-	/// this operation is in place. It executes in O(n) time.
-	pub(super) fn into_huffman_codeword_lengths(mut self) -> T {
+	/// this operation is in place. It executes in O(n) time, unless some codeword
+	/// would be longer than the maximum length the Vorbis format can represent.
+	pub(super) fn into_huffman_codeword_lengths(self) -> T {
+		self.into_limited_huffman_codeword_lengths(MAXIMUM_CODEWORD_LENGTH)
+	}
+
+	/// Same as [`into_huffman_codeword_lengths`](Self::into_huffman_codeword_lengths),
+	/// but with the specified maximum codeword length.
+	///
+	/// # Preconditions
+	/// 2^`maximum_codeword_length` is not less than the number of used entries.
+	pub(super) fn into_limited_huffman_codeword_lengths(
+		mut self,
+		maximum_codeword_length: u8
+	) -> T {
 		let used_codeword_count = self.number_index_map.len();
 
 		match used_codeword_count {
@@ -79,7 +95,26 @@ impl<T: AsMut<[u64]> + AsRef<[u64]>> VorbisCodebookNumberFrequenciesDecorator<T>
 			}
 			used_codeword_count => {
 				// Our general algorithm can handle the rest of possible used entry counts
-				compute_huffman_codeword_lengths(self, used_codeword_count).number_frequencies
+				let sorted_frequencies = (0..used_codeword_count)
+					.map(|i| self[i])
+					.collect::<Vec<_>>();
+				let mut lengths = compute_huffman_codeword_lengths(self, used_codeword_count);
+
+				// The least frequent entry has the longest codeword. Very skewed frequencies may
+				// yield codewords that are too long for the Vorbis format. This needs millions of
+				// decoded entries, so it should hardly ever happen
+				if lengths[used_codeword_count - 1] > maximum_codeword_length as u64 {
+					let limited_lengths = compute_limited_huffman_codeword_lengths(
+						&sorted_frequencies,
+						maximum_codeword_length
+					);
+
+					for (i, length) in limited_lengths.into_iter().enumerate() {
+						lengths[i] = length;
+					}
+				}
+
+				lengths.number_frequencies
 			}
 		}
 	}
@@ -175,6 +210,66 @@ fn compute_huffman_codeword_lengths<T: IndexMut<usize, Output = u64>>(
 	w
 }
 
+/// Computes optimal codeword lengths not greater than the specified maximum with the
+/// package-merge algorithm. The frequencies must be sorted in decreasing order.
+fn compute_limited_huffman_codeword_lengths(
+	sorted_frequencies: &[u64],
+	maximum_codeword_length: u8
+) -> Vec<u64> {
+	let entry_count = sorted_frequencies.len();
+
+	// For each level, whether each item of its sorted list is an entry or a package,
+	// which stands for two consecutive items of the list of the previous level
+	let mut levels: Vec<Vec<bool>> = Vec::with_capacity(maximum_codeword_length as usize);
+	let mut previous_weights: Vec<u64> = vec![];
+	for _ in 0..maximum_codeword_length {
+		let mut packages = previous_weights
+			.chunks_exact(2)
+			.map(|pair| pair[0].saturating_add(pair[1]))
+			.peekable();
+		let mut entries = sorted_frequencies.iter().rev().copied().peekable();
+		let mut is_entry = Vec::with_capacity(2 * entry_count);
+		let mut weights = Vec::with_capacity(2 * entry_count);
+
+		loop {
+			let entry_is_next = match (entries.peek(), packages.peek()) {
+				(Some(entry), Some(package)) => entry <= package,
+				(Some(_), None) => true,
+				(None, Some(_)) => false,
+				(None, None) => break
+			};
+
+			is_entry.push(entry_is_next);
+			weights.extend(if entry_is_next {
+				entries.next()
+			} else {
+				packages.next()
+			});
+		}
+
+		levels.push(is_entry);
+		previous_weights = weights;
+	}
+
+	// The length of an entry is the number of times it was selected, directly or in packages
+	let mut lengths = vec![0; entry_count];
+	let mut selected_count = 2 * entry_count - 2;
+	for is_entry in levels.iter().rev() {
+		let selected_entries_count = is_entry[..selected_count]
+			.iter()
+			.filter(|is_entry| **is_entry)
+			.count();
+
+		for length in lengths.iter_mut().rev().take(selected_entries_count) {
+			*length += 1;
+		}
+
+		selected_count = 2 * (selected_count - selected_entries_count);
+	}
+
+	lengths
+}
+
 #[cfg(test)]
 mod test {
 	use super::*;
-- 
2.43.0


From b16a068c6522c85b97cee1390468c16ca9b91afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 09/14] verif hook: codeword length computation

---
 packages/optivorbis/src/lib.rs                 | 4 ++++
 packages/optivorbis/src/vorbis/codebook/mod.rs | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/packages/optivorbis/src/lib.rs b/packages/optivorbis/src/lib.rs
index 50b6e99..3d60c7e 100644
--- a/packages/optivorbis/src/lib.rs
+++ b/packages/optivorbis/src/lib.rs
@@ -208,6 +208,7 @@
 #![doc(
 	html_logo_url = "https://github.com/OptiVorbis/OptiVorbis/raw/master/web/src/static/optivorbis_logo.png"
 )]
+#![allow(unexpected_cfgs)] // optivorbis_verif: see the verification hooks
 #![forbid(unsafe_code)]
 #![forbid(unsafe_op_in_unsafe_fn)]
 #![forbid(rustdoc::broken_intra_doc_links)]
@@ -234,6 +235,9 @@
 pub use remuxer::{Remuxer, ogg_to_ogg::OggToOgg};
 #[doc(inline)]
 pub use vorbis::codebook::VorbisCodebookError;
+#[cfg(optivorbis_verif)]
+#[doc(hidden)]
+pub use vorbis::codebook::verif_codeword_lengths;
 #[doc(inline)]
 pub use vorbis::optimizer::{
 	VorbisCommentFieldsAction, VorbisOptimizer, VorbisOptimizerError, VorbisOptimizerSettings,
diff --git a/packages/optivorbis/src/vorbis/codebook/mod.rs b/packages/optivorbis/src/vorbis/codebook/mod.rs
index ec1110a..273f556 100644
--- a/packages/optivorbis/src/vorbis/codebook/mod.rs
+++ b/packages/optivorbis/src/vorbis/codebook/mod.rs
@@ -191,3 +191,10 @@ impl VorbisCodebook {
 			.unwrap()
 	}
 }
+
+/// Verification hook: replaces entry frequencies by their optimal codeword lengths.
+#[cfg(optivorbis_verif)]
+pub fn verif_codeword_lengths(frequencies: &mut [u64], maximum_codeword_length: u8) {
+	VorbisCodebookNumberFrequenciesDecorator::new(frequencies)
+		.into_limited_huffman_codeword_lengths(maximum_codeword_length);
+}
-- 
2.43.0


From 73b2d0c3d1560d76ddaf08c8c8c656cbd1f7a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 10/14] fix: keep the start offset of streams whose audio fits
 in a single page

---
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 05f4fed..cd6b4a6 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -470,6 +470,22 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 				stream_state
 			);
 
+			// The granule position of the first audio page conveys the start offset of the stream
+			// only if that page is not the last one too, as in that case it conveys where the
+			// stream ends. Therefore, if there is an offset to keep, end the first audio page where
+			// the original stream did, so that it is never the last one
+			let page_end_info = if !is_last_stream_packet
+				&& !remuxer_settings.ignore_start_sample_offset
+				&& stream_state.start_granule_position_offset.unwrap_or(0) != 0
+				&& stream_state
+					.original_last_audio_packet_in_first_audio_page_granule_position
+					.is_some_and(|(_, final_packet_number)| final_packet_number == packet_number)
+			{
+				PacketWriteEndInfo::EndPage
+			} else {
+				page_end_info
+			};
+
 			// Letting the stream serial addition to overflow is the most sensible thing:
 			// the Ogg specification just requires serials to be unique per stream, so by
 			// wrapping we make a good use of the available bit space
-- 
2.43.0


From 594f418a339e63eb563e7deca354af02eb284902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 11/14] fix: report multiplexing of streams whose end is marked
 too early

When a page that was not the last one of a Vorbis stream had the EOS flag
set, another Vorbis stream could start before the rest of it was read, and
the pages of both were written interleaved, instead of reporting the
unsupported multiplexing.
---
 packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index cd6b4a6..3da4d60 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -283,6 +283,7 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 	while let Some(packet) = packet_reader.read_packet()? {
 		let stream_serial = packet.stream_serial();
 		let page_checksum = packet.checksum_page();
+		let vorbis_stream_count = vorbis_streams.len();
 
 		if packet.first_in_stream() {
 			match VorbisOptimizer::new(optimizer_settings, packet.data) {
@@ -348,9 +349,17 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 					return Err(error.into());
 				}
 			}
-		} else if let Some(stream_state) = vorbis_streams.get_mut(&stream_serial) {
+		} else if let Some((stream_index, _, stream_state)) =
+			vorbis_streams.get_full_mut(&stream_serial)
+		{
 			// The second and next Vorbis packets of a Vorbis logical bitstream
 
+			if stream_index + 1 != vorbis_stream_count {
+				// Another logical Vorbis bitstream has started since, because a page that was
+				// not the last one of this stream had the EOS flag set. The streams are grouped
+				return Err(RemuxError::UnsupportedStreamMultiplexing);
+			}
+
 			// last_in_stream() may return false for the last packet of a bitstream
 			// if its page does not set the EOS flag, but that's not a concern if
 			// no other packets follow. If they do, and are not for this stream,
-- 
2.43.0


From f4f54c6e5fc824a27d22ec549c3a0a23a63af9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 12/14] fix: report errors that happen when flushing the output

The output file is buffered, so writing the end of it, or all of a small
one, only happened when the buffer was dropped, which ignores errors: with
a full disk the program exited successfully without a usable output.
---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index a0b77a9..d254d30 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -253,6 +253,8 @@ fn remux<F: Read + Seek>(
 			let remux_begin = Instant::now();
 			OggToOgg::new(remuxer_settings, optimizer_settings)
 				.remux(input_file, output_file)
+				// The output is buffered, so errors may happen as late as when it is flushed
+				.and_then(|output_file| Ok(output_file.flush()?))
 				.map(|_| remux_begin.elapsed())
 		}
 	} {
-- 
2.43.0


From 308dd03574b987c7518dc4868098b3b226690f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 13/14] fix: keep the banner out of the output when it goes to
 the standard output

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index d254d30..2f425da 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -127,8 +127,13 @@ fn run() -> Result<(), Cow<'static, str>> {
 				let quiet_mode = matches.opt_present("q");
 
 				if !quiet_mode {
-					print_header();
-					println!();
+					if matches.free.get(1).is_some_and(|output| output == "-") {
+						// The standard output is only for the output file
+						eprintln!("{}\n", header());
+					} else {
+						print_header();
+						println!();
+					}
 				}
 
 				if matches.free.len() != 2 {
@@ -306,9 +311,15 @@ fn init_logging(option_matches: &Matches, quiet_mode: bool) {
 }
 
 fn print_header() {
-	println!("{OPTIVORBIS_VERSION_TAG}");
-	println!("{}", env!("CARGO_PKG_DESCRIPTION"));
-	println!("Copyright (C) {}", env!("CARGO_PKG_AUTHORS"));
+	println!("{}", header());
+}
+
+fn header() -> String {
+	format!(
+		"{OPTIVORBIS_VERSION_TAG}\n{}\nCopyright (C) {}",
+		env!("CARGO_PKG_DESCRIPTION"),
+		env!("CARGO_PKG_AUTHORS")
+	)
 }
 
 enum AvailableRemuxer {
-- 
2.43.0


From ecc49511136548c5e42b85ed526cf4581e53ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 14/14] fix: report arguments that are not valid Unicode
 instead of panicking

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index 2f425da..80639c9 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -110,7 +110,7 @@ fn run() -> Result<(), Cow<'static, str>> {
 		)
 		.parsing_style(ParsingStyle::StopAtFirstFree);
 
-	match options.parse(env::args().skip(1)) {
+	match options.parse(env::args_os().skip(1)) {
 		Ok(matches) => {
 			if matches.opt_present("h") {
 				print_header();
-- 
2.43.0

