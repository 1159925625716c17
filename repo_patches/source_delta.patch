From e4ec4dacd8e6462e8c1b711dd3d64378f4495631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 01/17] fix: do not let bits above the width leak into
 following bitpack writes

BitpackWriter::write_unsigned_integer promises to write the least significant
bits of an integer, but kept the more significant ones in its pending byte when
the value crossed a byte boundary, where they corrupted the next write. That
affected negative signed integers and the residue cascade masks of rewritten
Vorbis setup headers.
---
 packages/vorbis_bitpack/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index e1a8dd6..1a1520e 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -301,6 +301,10 @@ impl<W: Write> BitpackWriter<W> {
 	) -> Result<()> {
 		let mut remaining_bits = width.get();
 
+		// Drop any bits that do not fit in the requested width, so they do not end up in
+		// the pending byte and corrupt whatever is written next
+		integer &= ones_mask(width);
+
 		// First, try to complete the pending byte with bits from this integer
 		let free_bits_in_byte_to_be_written = 8 - self.bits_to_be_written;
 		let bits_to_write_in_byte_to_be_written =
-- 
2.43.0


From edd84678f224df7fbbe200fc516efc5ae34488fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 02/17] fix: clear the pending byte when finalizing a bitpack
 writer

Bits written before BitpackWriter::finalize were combined with the bits written
after it.
---
 packages/vorbis_bitpack/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 1a1520e..f7083d2 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -409,8 +409,10 @@ impl<W: Write> BitpackWriter<W> {
 	/// destination after a call to [`flush`](Self::flush).
 	pub fn finalize(&mut self) -> Result<()> {
 		if self.bits_to_be_written > 0 {
+			let last_byte = self.byte_to_be_written;
+			self.byte_to_be_written = 0;
 			self.bits_to_be_written = 0;
-			self.sink.write_all(&[self.byte_to_be_written])
+			self.sink.write_all(&[last_byte])
 		} else {
 			Ok(())
 		}
-- 
2.43.0


From dc9bdc1761ddcbadd8d51b57902ca82cd861f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 03/17] fix: copy codebook lookup parameters bit by bit

The minimum and delta values of codebooks were converted to native floating
point numbers and back, which turned zero into a tiny nonzero number and changed
the representation of numbers that are not normalized.
---
 .../vorbis/optimizer/setup_header_parse.rs    | 22 ++++++++++---------
 .../vorbis/optimizer/setup_header_rewrite.rs  | 10 +++++++--
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 5f2d60c..7db472f 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -62,10 +62,12 @@ pub(super) struct CodebookConfiguration {
 	/// Number of elements per vector this codebook would yield in a VQ context.
 	pub(super) dimensions: u16,
 	pub(super) vector_lookup_type: VectorLookupType,
-	/// Called `codebook_minimum_value` in the specification.
-	pub(super) codebook_vector_minimum_value: f64,
-	/// Called `codebook_delta_value` in the specification.
-	pub(super) codebook_vector_delta_value: f64,
+	/// Called `codebook_minimum_value` in the specification. This is the raw `float32` word,
+	/// because a conversion to a native type and back only preserves normalized values.
+	pub(super) codebook_vector_minimum_value: u32,
+	/// Called `codebook_delta_value` in the specification. This is the raw `float32` word,
+	/// because a conversion to a native type and back only preserves normalized values.
+	pub(super) codebook_vector_delta_value: u32,
 	/// Called `codebook_multiplicands` in the specification.
 	pub(super) codebook_vector_multiplicands: Vec<u16>,
 	/// Called `codebook_value_bits` in the specification.
@@ -352,8 +354,8 @@ fn parse_codebook_configurations<'pref, 'packet>(
 		if lookup_type == VectorLookupType::NoLookup {
 			// This codebook is not used for vector lookup. Skip
 			debug!("Codebook {i} is not used for vector decoding");
-			codebook_vector_minimum_value = 0.0;
-			codebook_vector_delta_value = 0.0;
+			codebook_vector_minimum_value = 0;
+			codebook_vector_delta_value = 0;
 			codebook_vector_value_bits = 0;
 			codebook_vector_sequence_flag = false;
 			codebook_vector_multiplicands = vec![];
@@ -364,9 +366,9 @@ fn parse_codebook_configurations<'pref, 'packet>(
 			// audio packet
 
 			codebook_vector_minimum_value =
-				bitpack_packet_read!(bitpacker, read_float32, header_length)?;
+				bitpack_packet_read!(bitpacker, read_unsigned_integer, header_length, const 32, u32)?;
 			codebook_vector_delta_value =
-				bitpack_packet_read!(bitpacker, read_float32, header_length)?;
+				bitpack_packet_read!(bitpacker, read_unsigned_integer, header_length, const 32, u32)?;
 			codebook_vector_value_bits = bitpack_packet_read!(bitpacker, read_unsigned_integer, header_length, const 4, u8)?
 				+ 1;
 			codebook_vector_sequence_flag =
@@ -383,8 +385,8 @@ fn parse_codebook_configurations<'pref, 'packet>(
 
 			debug!(
 				"Codebook {i} vector lookup: type {} ({lookup_type:?}), \
-				minimum value {codebook_vector_minimum_value}, \
-				delta value {codebook_vector_delta_value}, \
+				minimum value {codebook_vector_minimum_value:#010x}, \
+				delta value {codebook_vector_delta_value:#010x}, \
 				value bits {codebook_vector_value_bits}, \
 				value count {codebook_lookup_value_count}",
 				lookup_type as u8,
diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs
index 5b278ad..8414a54 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_rewrite.rs
@@ -219,8 +219,14 @@ fn optimize_and_write_codebooks<W: Write>(
 			bitpacked_integer_width!(4)
 		)?;
 		if codebook_configuration.vector_lookup_type != VectorLookupType::NoLookup {
-			bitpacker.write_float32(codebook_configuration.codebook_vector_minimum_value)?;
-			bitpacker.write_float32(codebook_configuration.codebook_vector_delta_value)?;
+			bitpacker.write_unsigned_integer(
+				codebook_configuration.codebook_vector_minimum_value,
+				bitpacked_integer_width!(32)
+			)?;
+			bitpacker.write_unsigned_integer(
+				codebook_configuration.codebook_vector_delta_value,
+				bitpacked_integer_width!(32)
+			)?;
 			// By construction, this is at least 1, so overflow does not happen
 			bitpacker.write_unsigned_integer(
 				codebook_configuration.codebook_vector_value_bits as u32 - 1,
-- 
2.43.0


From 856a19d47c1350d55be4be1b0fc48d2eda3c5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 04/17] fix: do not take quadratic time to build Huffman trees

Every search for the leftmost free leaf walked over all the full subtrees to its
left, so a setup header of a few bytes that declares a codebook with many entries
could keep the library busy for hours. Remember which subtrees are known to be
full.
---
 .../src/vorbis/codebook/huffman_tree.rs       | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
index 8b61888..e416983 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
@@ -79,7 +79,7 @@ impl VorbisHuffmanTree {
 						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
 						..Default::default()
 					})),
-					entry: None
+					..Default::default()
 				}
 			}
 			.build());
@@ -203,7 +203,10 @@ impl<V> VorbisHuffmanTreeWalker<'_, '_, V> {
 struct VorbisHuffmanTreeNode<'tree, V> {
 	left_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
 	right_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
-	entry: Option<V>
+	entry: Option<V>,
+	/// The number of levels of this subtree, counting from this node, that are known not
+	/// to contain any free leaf. Leaves are never freed, so this only grows.
+	levels_without_free_leaf: u8
 }
 
 impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
@@ -245,7 +248,13 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 			return None;
 		}
 
-		// Base case 2: this node is a leftmost free leaf candidate
+		// Base case 2: a previous search already found out that there are no free leaves at
+		// this depth. A free leaf at a lower depth would imply free leaves at higher depths
+		if depth < self.levels_without_free_leaf {
+			return None;
+		}
+
+		// Base case 3: this node is a leftmost free leaf candidate
 		if depth == 0 {
 			return if self.left_child.is_none() && self.right_child.is_none() {
 				Some((self, codeword_so_far))
@@ -256,7 +265,8 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 
 		// Recursive cases: expand and try finding a free leaf in the left child.
 		// If that does not yield a leaf, try the right child
-		self.left_child
+		let free_leaf = self
+			.left_child
 			.get_or_insert_with(|| arena.alloc(Self::default()))
 			.leftmost_free_leaf_at_depth_internal(depth - 1, codeword_so_far, arena)
 			.or_else(|| {
@@ -267,7 +277,13 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 						codeword_so_far | (1 << (depth - 1)),
 						arena
 					)
-			})
+			});
+
+		if free_leaf.is_none() {
+			self.levels_without_free_leaf = depth + 1;
+		}
+
+		free_leaf
 	}
 }
 
@@ -276,7 +292,8 @@ impl<V> Default for VorbisHuffmanTreeNode<'_, V> {
 		Self {
 			left_child: None,
 			right_child: None,
-			entry: None
+			entry: None,
+			levels_without_free_leaf: 0
 		}
 	}
 }
-- 
2.43.0


From bd23e707a3e0e916cb7a4afdecc9f257a05a2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 05/17] fix: compute the exact number of multiplicands of big
 codebooks

The result of lookup1_values was off by one for some codebooks with more than
1.5 million entries because of insufficient floating point precision, which made
their setup header unreadable.
---
 .../src/vorbis/optimizer/setup_header_parse.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 7db472f..6cd147c 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -906,14 +906,28 @@ fn parse_modes<R: Read>(
 /// Vorbis I specification. Mathematically, it returns the
 /// `codebook_dimensions`-root of `codebook_entries`, rounded down to an integer.
 fn lookup1_values(codebook_entries: u32, codebook_dimensions: u16) -> u32 {
-	// codebook_entries is at most 2^24 - 1, so it fits in a f32.
 	// codebook_dimensions of zero does not make sense for codebooks used for vector
 	// lookup, but the specification does not say they're illegal otherwise. Therefore,
 	// let's handle that edge case to avoid division by zero
 	if codebook_dimensions == 0 {
 		u32::MAX
 	} else {
-		(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32
+		let is_root_too_big = |root: u32| {
+			(root as u64)
+				.checked_pow(codebook_dimensions as u32)
+				.is_none_or(|power| power > codebook_entries as u64)
+		};
+
+		// The root computed with floating point numbers may be off by one due to rounding
+		let mut root = (codebook_entries as f64).powf(1.0 / codebook_dimensions as f64) as u32;
+		while is_root_too_big(root) {
+			root -= 1;
+		}
+		while !is_root_too_big(root + 1) {
+			root += 1;
+		}
+
+		root
 	}
 }
 
-- 
2.43.0


From dc4c7e133d7c1e6640775d5d94c543a09ea5ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 06/17] fix: report failures to write the last bytes of the
 output

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index a0b77a9..2003efb 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -252,11 +252,16 @@ fn remux<F: Read + Seek>(
 
 			let remux_begin = Instant::now();
 			OggToOgg::new(remuxer_settings, optimizer_settings)
-				.remux(input_file, output_file)
+				.remux(input_file, &mut *output_file)
 				.map(|_| remux_begin.elapsed())
 		}
 	} {
 		Ok(duration) => {
+			// Buffered data that is written when the output is dropped would fail silently
+			output_file
+				.flush()
+				.map_err(|err| format!("Could not write output file: {err}"))?;
+
 			info!(
 				"Optimization and repairs completed in {:.3} s. Have a nice day!",
 				duration.as_secs_f64()
-- 
2.43.0


From 40d9801084d8ea0e2e969e8410981139c0a829d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 07/17] fix: report failures to print to the standard output
 instead of panicking

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index 2003efb..26554da 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -113,22 +113,19 @@ fn run() -> Result<(), Cow<'static, str>> {
 	match options.parse(env::args().skip(1)) {
 		Ok(matches) => {
 			if matches.opt_present("h") {
-				print_header();
-				println!();
-				println!("Usage:");
-				print!(
-					"    {} [OPTION]... <input file> <output file or ->",
-					env!("CARGO_BIN_NAME")
-				);
-				println!("{}", options.usage(""));
+				print_to_stdout(&format!(
+					"{}\nUsage:\n    {} [OPTION]... <input file> <output file or ->{}\n",
+					header(),
+					env!("CARGO_BIN_NAME"),
+					options.usage("")
+				))?;
 			} else if matches.opt_present("version") {
-				print_header();
+				print_to_stdout(&header())?;
 			} else {
 				let quiet_mode = matches.opt_present("q");
 
 				if !quiet_mode {
-					print_header();
-					println!();
+					print_to_stdout(&format!("{}\n", header()))?;
 				}
 
 				if matches.free.len() != 2 {
@@ -308,10 +305,22 @@ fn init_logging(option_matches: &Matches, quiet_mode: bool) {
 		.unwrap();
 }
 
-fn print_header() {
-	println!("{OPTIVORBIS_VERSION_TAG}");
-	println!("{}", env!("CARGO_PKG_DESCRIPTION"));
-	println!("Copyright (C) {}", env!("CARGO_PKG_AUTHORS"));
+fn header() -> String {
+	format!(
+		"{OPTIVORBIS_VERSION_TAG}\n{}\nCopyright (C) {}\n",
+		env!("CARGO_PKG_DESCRIPTION"),
+		env!("CARGO_PKG_AUTHORS")
+	)
+}
+
+/// Prints text to the standard output, returning an error if that is not possible.
+fn print_to_stdout(text: &str) -> Result<(), String> {
+	let mut stdout = stdout().lock();
+
+	stdout
+		.write_all(text.as_bytes())
+		.and_then(|_| stdout.flush())
+		.map_err(|err| format!("Could not write to standard output: {err}"))
 }
 
 enum AvailableRemuxer {
-- 
2.43.0


From ac0c83b732d5a90abc170cdfc9c6a4efd1e00713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 08/17] fix: do not empty the output file when the options are
 not valid

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 71 +++++++++----------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index 26554da..fb679fa 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -3,7 +3,7 @@ use std::{
 	env,
 	fmt::Display,
 	fs::File,
-	io::{BufReader, BufWriter, Read, Seek, Write, stdout},
+	io::{BufReader, BufWriter, Write, stdout},
 	path::Path,
 	process::exit,
 	str::FromStr,
@@ -136,37 +136,15 @@ fn run() -> Result<(), Cow<'static, str>> {
 				}
 
 				let input_file_name = &*matches.free[0];
-				let input_file = BufReader::new(
-					File::open(input_file_name)
-						.map_err(|err| format!("Could not open input file: {err}"))?
-				);
-
 				let output_file_name = &*matches.free[1];
-				let (mut output_stdout, mut output_file);
-				let (output_file, guessed_remuxer): (&mut dyn Write, Option<AvailableRemuxer>) =
-					match output_file_name {
-						"-" => {
-							output_stdout = stdout().lock();
-
-							(&mut output_stdout, None)
-						}
-						file_path => {
-							output_file = BufWriter::new(
-								File::create(file_path)
-									.map_err(|err| format!("Could not open output file: {err}"))?
-							);
-
-							let guessed_remuxer = match Path::new(file_path)
-								.extension()
-								.and_then(|extension| extension.to_str())
-							{
-								Some("ogg" | "oga" | "ogx") => Some(AvailableRemuxer::OggToOgg),
-								_ => None
-							};
-
-							(&mut output_file, guessed_remuxer)
-						}
-					};
+
+				let guessed_remuxer = match Path::new(output_file_name)
+					.extension()
+					.and_then(|extension| extension.to_str())
+				{
+					Some("ogg" | "oga" | "ogx") => Some(AvailableRemuxer::OggToOgg),
+					_ => None
+				};
 
 				let chosen_remuxer = matches.opt_get("remuxer")?.or(guessed_remuxer).ok_or(
 					"No remuxer was specified, and no remuxer could be guessed from the file extension"
@@ -176,9 +154,7 @@ fn run() -> Result<(), Cow<'static, str>> {
 
 				remux(
 					&matches,
-					input_file,
 					input_file_name,
-					output_file,
 					output_file_name,
 					chosen_remuxer
 				)?;
@@ -194,11 +170,9 @@ fn run() -> Result<(), Cow<'static, str>> {
 	}
 }
 
-fn remux<F: Read + Seek>(
+fn remux(
 	option_matches: &Matches,
-	input_file: F,
 	input_file_name: &str,
-	output_file: &mut dyn Write,
 	output_file_name: &str,
 	chosen_remuxer: AvailableRemuxer
 ) -> Result<(), Cow<'static, str>> {
@@ -243,17 +217,21 @@ fn remux<F: Read + Seek>(
 			set_remuxer_option_value!(remuxer_settings, error_on_no_vorbis_streams);
 			set_remuxer_option_value!(remuxer_settings, verify_ogg_page_checksums);
 
+			// The output file is emptied when opened, so every option must be valid at this point
+			let input_file = open_input(input_file_name)?;
+			let output_file = open_output(output_file_name)?;
+
 			info!(
 				"Processing {input_file_name} and saving to {output_file_name} with Ogg Vorbis remuxer..."
 			);
 
 			let remux_begin = Instant::now();
 			OggToOgg::new(remuxer_settings, optimizer_settings)
-				.remux(input_file, &mut *output_file)
-				.map(|_| remux_begin.elapsed())
+				.remux(input_file, output_file)
+				.map(|output_file| (remux_begin.elapsed(), output_file))
 		}
 	} {
-		Ok(duration) => {
+		Ok((duration, mut output_file)) => {
 			// Buffered data that is written when the output is dropped would fail silently
 			output_file
 				.flush()
@@ -270,6 +248,21 @@ fn remux<F: Read + Seek>(
 	}
 }
 
+fn open_input(file_name: &str) -> Result<BufReader<File>, String> {
+	File::open(file_name)
+		.map(BufReader::new)
+		.map_err(|err| format!("Could not open input file: {err}"))
+}
+
+fn open_output(file_name: &str) -> Result<Box<dyn Write>, String> {
+	match file_name {
+		"-" => Ok(Box::new(stdout().lock())),
+		file_path => File::create(file_path)
+			.map(|file| Box::new(BufWriter::new(file)) as Box<dyn Write>)
+			.map_err(|err| format!("Could not open output file: {err}"))
+	}
+}
+
 fn get_remuxer_option_value<E: Display, T: FromStr<Err = E>>(
 	option_matches: &Matches,
 	option: &str
-- 
2.43.0


From 374d253941e06617d97d04de8b0f5a080aef0248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 09/17] fix: return an error when the source changes between
 the passes

---
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs  | 50 ++++++++++++++++---
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 05f4fed..e7ae5e6 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -5,7 +5,7 @@ use std::{
 	collections::hash_map::DefaultHasher,
 	env,
 	hash::Hasher,
-	io::{self, Read, Seek, SeekFrom, Write},
+	io::{self, ErrorKind, Read, Seek, SeekFrom, Write},
 	num::ParseIntError,
 	sync::{Arc, Mutex},
 	time::UNIX_EPOCH
@@ -14,7 +14,7 @@ use std::{
 use granulator::granule_position_for_packet;
 use indexmap::{IndexMap, map::Entry};
 use log::info;
-use ogg::{OggReadError, PacketReader, PacketWriteEndInfo, PacketWriter, PageParsingOptions};
+use ogg::{OggReadError, Packet, PacketReader, PacketWriteEndInfo, PacketWriter, PageParsingOptions};
 #[doc(inline)]
 pub use ogg_vorbis_stream_mangler::{OggVorbisStreamMangler, OggVorbisStreamPassthroughMangler};
 use rand_xoshiro::{
@@ -222,7 +222,7 @@ impl<M: OggVorbisStreamMangler> Remuxer for OggToOgg<M> {
 
 		// First pass: validate and gather stream data for optimization
 		info!("Starting first Ogg to Ogg remux pass");
-		let mut vorbis_streams = first_pass(
+		let (mut vorbis_streams, vorbis_packet_digests) = first_pass(
 			&mut source,
 			&self.optimizer_settings,
 			remuxer_settings,
@@ -255,6 +255,7 @@ impl<M: OggVorbisStreamMangler> Remuxer for OggToOgg<M> {
 			source,
 			&mut sink,
 			&mut vorbis_streams,
+			&vorbis_packet_digests,
 			remuxer_settings,
 			&self.ogg_page_parsing_options,
 			first_stream_serial,
@@ -267,21 +268,25 @@ impl<M: OggVorbisStreamMangler> Remuxer for OggToOgg<M> {
 }
 
 /// Executes the first remuxing pass, where the Vorbis streams within the source Ogg physical
-/// bitstream are read and analyzed for optimization.
+/// bitstream are read and analyzed for optimization. The digests of the packets that belong to
+/// those streams are returned, so that the second pass can check that it reads the same data.
+#[allow(clippy::type_complexity)]
 fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 	source: R,
 	optimizer_settings: &'settings VorbisOptimizerSettings,
 	remuxer_settings: &mut Settings<M>,
 	ogg_page_parsing_options: &Arc<PageParsingOptions>
-) -> Result<IndexMap<u32, VorbisStreamState<'settings>>, RemuxError> {
+) -> Result<(IndexMap<u32, VorbisStreamState<'settings>>, Vec<u64>), RemuxError> {
 	let mut packet_reader =
 		PacketReader::new_with_page_parse_opts(source, Arc::clone(ogg_page_parsing_options));
 
 	let mut vorbis_streams = IndexMap::with_capacity(1);
+	let mut vorbis_packet_digests = vec![];
 	let mut reading_vorbis_stream = false;
 
 	while let Some(packet) = packet_reader.read_packet()? {
 		let stream_serial = packet.stream_serial();
+		let packet_digest = packet_digest(&packet);
 		let page_checksum = packet.checksum_page();
 
 		if packet.first_in_stream() {
@@ -331,6 +336,7 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 							checksum: page_checksum
 						}
 					);
+					vorbis_packet_digests.push(packet_digest);
 					reading_vorbis_stream = true;
 				}
 				Err(
@@ -357,6 +363,8 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 			// we will rightfully return an error
 			reading_vorbis_stream = !packet.last_in_stream();
 
+			vorbis_packet_digests.push(packet_digest);
+
 			// Hand over the packet to the optimizer for analysis
 			let packet_sample_block_size = stream_state.optimizer.analyze_packet(&packet.data)?;
 			let is_not_discarded_audio_packet = packet_sample_block_size.is_some();
@@ -392,7 +400,7 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 	if vorbis_streams.is_empty() && remuxer_settings.error_on_no_vorbis_streams {
 		Err(RemuxError::NoVorbisStreamFound)
 	} else {
-		Ok(vorbis_streams)
+		Ok((vorbis_streams, vorbis_packet_digests))
 	}
 }
 
@@ -403,6 +411,7 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 	source: R,
 	sink: W,
 	vorbis_streams: &mut IndexMap<u32, VorbisStreamState<'_>>,
+	vorbis_packet_digests: &[u64],
 	remuxer_settings: &mut Settings<M>,
 	ogg_page_parsing_options: &Arc<PageParsingOptions>,
 	first_stream_serial: u32,
@@ -413,6 +422,7 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 	let mut packet_writer = PacketWriter::new(sink);
 
 	let mut last_seen_vorbis_stream_serial = None;
+	let mut vorbis_packet_digests = vorbis_packet_digests.iter();
 
 	while let Some(packet) = packet_reader.read_packet()? {
 		let stream_serial = packet.stream_serial();
@@ -424,6 +434,11 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 			}
 			last_seen_vorbis_stream_serial = Some(stream_serial);
 
+			// The optimizer and we assume that the packets are those of the first pass
+			if vorbis_packet_digests.next() != Some(&packet_digest(&packet)) {
+				return Err(source_changed_error());
+			}
+
 			let stream_index = entry.index() as u32;
 			let stream_state = entry.get_mut();
 
@@ -510,9 +525,32 @@ fn second_pass<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(
 		}
 	}
 
+	if vorbis_packet_digests.next().is_some() {
+		return Err(source_changed_error());
+	}
+
 	Ok(())
 }
 
+/// Computes a digest of everything about a packet that both passes rely on.
+fn packet_digest(packet: &Packet) -> u64 {
+	let mut hasher = DefaultHasher::new();
+	hasher.write_u32(packet.stream_serial());
+	hasher.write_u64(packet.absgp_page());
+	hasher.write(&packet.data);
+	hasher.finish()
+}
+
+/// The error to return when the second pass does not read what the first pass read, because
+/// the source was modified in between.
+fn source_changed_error() -> RemuxError {
+	io::Error::new(
+		ErrorKind::InvalidData,
+		"The source data changed while it was being processed"
+	)
+	.into()
+}
+
 /// Computes a random serial for the first Vorbis logical bitstream in an Ogg physical
 /// bitstream, and the increment to add to that serial with wrapping arithmetic to
 /// cheaply generate fairly unique serials for other bitstreams. This should be done
-- 
2.43.0


From 969e19b4fd73dcb4c96b85f8517e2501db670560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 10/17] fix: refuse streams that continue after another one
 started

---
 packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index e7ae5e6..50709a3 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -288,6 +288,7 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 		let stream_serial = packet.stream_serial();
 		let packet_digest = packet_digest(&packet);
 		let page_checksum = packet.checksum_page();
+		let vorbis_stream_count = vorbis_streams.len();
 
 		if packet.first_in_stream() {
 			match VorbisOptimizer::new(optimizer_settings, packet.data) {
@@ -354,9 +355,17 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 					return Err(error.into());
 				}
 			}
-		} else if let Some(stream_state) = vorbis_streams.get_mut(&stream_serial) {
+		} else if let Some((stream_index, _, stream_state)) =
+			vorbis_streams.get_full_mut(&stream_serial)
+		{
 			// The second and next Vorbis packets of a Vorbis logical bitstream
 
+			if stream_index + 1 != vorbis_stream_count {
+				// This bitstream continues after its end, once another Vorbis logical bitstream
+				// started, so these are grouped, too
+				return Err(RemuxError::UnsupportedStreamMultiplexing);
+			}
+
 			// last_in_stream() may return false for the last packet of a bitstream
 			// if its page does not set the EOS flag, but that's not a concern if
 			// no other packets follow. If they do, and are not for this stream,
-- 
2.43.0


From dac9dcf4549baff2562754eaede47b5025d52f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 11/17] fix: do not overflow when reading signed integers of
 width 0

---
 packages/vorbis_bitpack/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index f7083d2..0bfe9db 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -444,7 +444,11 @@ const fn ones_mask(width: BitpackedIntegerWidth) -> u32 {
 /// word to a native 32-bit signed integer.
 const fn sign_extend(integer: u32, width: BitpackedIntegerWidth) -> i32 {
 	let extended_bits = 32 - width.get() as u32;
-	(integer as i32) << extended_bits >> extended_bits
+	// Integers of width 0 would be shifted by 32 bits, which overflows. As their value is 0,
+	// there is nothing to extend in them, so it's fine for that shift amount to wrap to 0
+	(integer as i32)
+		.wrapping_shl(extended_bits)
+		.wrapping_shr(extended_bits)
 }
 
 /// Unpacks the specified 32-bit word containing a Vorbis codebook float value, as
-- 
2.43.0


From a97af9d93d501a69db603d4f0a867ea1311efba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 12/17] fix: report arguments that are not valid Unicode
 instead of panicking

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index fb679fa..359f40b 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -110,7 +110,7 @@ fn run() -> Result<(), Cow<'static, str>> {
 		)
 		.parsing_style(ParsingStyle::StopAtFirstFree);
 
-	match options.parse(env::args().skip(1)) {
+	match options.parse(env::args_os().skip(1)) {
 		Ok(matches) => {
 			if matches.opt_present("h") {
 				print_to_stdout(&format!(
-- 
2.43.0


From a85ad469c8b80d0fc821ef3c4487d719c0eefa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 13/17] fix: do not panic if an error message cannot be printed

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index 359f40b..3ea2416 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -3,7 +3,7 @@ use std::{
 	env,
 	fmt::Display,
 	fs::File,
-	io::{BufReader, BufWriter, Write, stdout},
+	io::{BufReader, BufWriter, Write, stderr, stdout},
 	path::Path,
 	process::exit,
 	str::FromStr,
@@ -22,7 +22,9 @@ fn main() {
 	exit(match run() {
 		Ok(()) => 0,
 		Err(err) => {
-			eprintln!("{err}");
+			// There is no way left to report a failure to print this message, and
+			// eprintln! would panic
+			writeln!(stderr(), "{err}").ok();
 			1
 		}
 	})
-- 
2.43.0


From 352dbc6892938f853c9b538ffa56d50b51641ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 14/17] fix: reject unknown remuxer options instead of ignoring
 them

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index 3ea2416..64f2e1e 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -213,6 +213,17 @@ fn remux(
 	match match chosen_remuxer {
 		AvailableRemuxer::OggToOgg => {
 			let mut remuxer_settings = ogg_to_ogg::Settings::default();
+			check_remuxer_option_names(
+				option_matches,
+				&[
+					"randomize_stream_serials",
+					"first_stream_serial_offset",
+					"ignore_start_sample_offset",
+					"error_on_no_vorbis_streams",
+					"verify_ogg_page_checksums"
+				]
+			)?;
+
 			set_remuxer_option_value!(remuxer_settings, randomize_stream_serials);
 			set_remuxer_option_value!(remuxer_settings, first_stream_serial_offset);
 			set_remuxer_option_value!(remuxer_settings, ignore_start_sample_offset);
@@ -265,6 +276,25 @@ fn open_output(file_name: &str) -> Result<Box<dyn Write>, String> {
 	}
 }
 
+/// Checks that every remuxer option has a known name and a value, so that none of them is
+/// silently ignored.
+fn check_remuxer_option_names(
+	option_matches: &Matches,
+	known_options: &[&str]
+) -> Result<(), String> {
+	match option_matches
+		.opt_strs("remuxer_option")
+		.into_iter()
+		.find(|option_and_value| {
+			!option_and_value
+				.split_once('=')
+				.is_some_and(|(option, _)| known_options.contains(&option))
+		}) {
+		Some(option_and_value) => Err(format!("Invalid remuxer option: {option_and_value}")),
+		None => Ok(())
+	}
+}
+
 fn get_remuxer_option_value<E: Display, T: FromStr<Err = E>>(
 	option_matches: &Matches,
 	option: &str
-- 
2.43.0


From 0f410f778e94ba9156e1bae6a08289e5399ee7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 15/17] fix: never generate codewords longer than 32 bits

Frequencies that resemble the Fibonacci sequence yield longer codewords once
millions of entries are decoded, which caused a panic or a corrupt output.
---
 .../optivorbis/src/vorbis/codebook/mod.rs     | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/mod.rs b/packages/optivorbis/src/vorbis/codebook/mod.rs
index ec1110a..53d0d29 100644
--- a/packages/optivorbis/src/vorbis/codebook/mod.rs
+++ b/packages/optivorbis/src/vorbis/codebook/mod.rs
@@ -169,10 +169,32 @@ impl VorbisCodebook {
 	pub(super) fn optimal_codeword_lengths(&mut self) -> &[u64] {
 		if self.recording_decode_frequencies {
 			self.recording_decode_frequencies = false;
-			VorbisCodebookNumberFrequenciesDecorator::new(
-				self.entry_decode_frequencies_or_lengths.get_mut()
-			)
-			.into_huffman_codeword_lengths()
+
+			let entry_decode_frequencies_or_lengths =
+				self.entry_decode_frequencies_or_lengths.get_mut();
+			let mut entry_decode_frequencies = entry_decode_frequencies_or_lengths.clone();
+
+			loop {
+				VorbisCodebookNumberFrequenciesDecorator::new(
+					&mut *entry_decode_frequencies_or_lengths
+				)
+				.into_huffman_codeword_lengths();
+
+				// Codewords can't be longer than 32 bits, but millions of entries decoded with
+				// very uneven frequencies can yield longer ones. In that case, make the
+				// frequencies more even, while keeping every used entry, and try again
+				if entry_decode_frequencies_or_lengths
+					.iter()
+					.all(|codeword_length| *codeword_length <= 32)
+				{
+					break entry_decode_frequencies_or_lengths;
+				}
+
+				for entry_decode_frequency in &mut entry_decode_frequencies {
+					*entry_decode_frequency = entry_decode_frequency.div_ceil(2);
+				}
+				entry_decode_frequencies_or_lengths.clone_from(&entry_decode_frequencies);
+			}
 		} else {
 			self.entry_decode_frequencies_or_lengths.get_mut()
 		}
-- 
2.43.0


From 987a179ad1ce603e0279840165b5adc3ee31d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 16/17] fix: do not read the system clock on targets that have
 none

---
 packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 50709a3..9103205 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -590,10 +590,16 @@ fn random_stream_serial_and_increment(
 				source_date_epoch
 					.map_or_else(
 						|| {
-							Ok(UNIX_EPOCH
-								.elapsed()
-								.unwrap_or_else(|err| err.duration())
-								.as_nanos() as u64)
+							// Targets without an operating system, such as web browsers, have no
+							// system clock either: reading it would panic
+							Ok(if cfg!(all(target_family = "wasm", target_os = "unknown")) {
+								0
+							} else {
+								UNIX_EPOCH
+									.elapsed()
+									.unwrap_or_else(|err| err.duration())
+									.as_nanos() as u64
+							})
 						},
 						|timestamp| {
 							timestamp
-- 
2.43.0


From ab3148505c8f9c9b193838787eff1bc3a8a8a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 17/17] fix: keep the clock's own lines as they were next to
 the wasm case

---
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 9103205..7e15fea 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -592,14 +592,14 @@ fn random_stream_serial_and_increment(
 						|| {
 							// Targets without an operating system, such as web browsers, have no
 							// system clock either: reading it would panic
-							Ok(if cfg!(all(target_family = "wasm", target_os = "unknown")) {
-								0
-							} else {
-								UNIX_EPOCH
-									.elapsed()
-									.unwrap_or_else(|err| err.duration())
-									.as_nanos() as u64
-							})
+							if cfg!(all(target_family = "wasm", target_os = "unknown")) {
+								return Ok(0);
+							}
+
+							Ok(UNIX_EPOCH
+								.elapsed()
+								.unwrap_or_else(|err| err.duration())
+								.as_nanos() as u64)
 						},
 						|timestamp| {
 							timestamp
-- 
2.43.0

