"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from this."""

PROPS = []
ENC = "explicit-state enumeration of all command sequences on the real encoder against a reference model"
ENCNOTE = "Every command sequence over the alphabet up to the depth in the evidence is executed on the real encoder and compared event by event with an independent reference model; coordinates outside the alphabet and longer sequences are not covered."
RT = "explicit-state enumeration of all stitch programs through the real writer and reader against a reference model"
RTNOTE = "Every program over the alphabet up to the stated depth is written and read back by the real code; values outside the alphabet and longer programs are not covered, apart from complete enumerations named in the evidence."


def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=(), state=(), **kw):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": ["pyembroidery/" + f for f in files],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe),
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "hook_needed": None},
        "technique": technique, "note": note,
    }
    d.update(kw)
    PROPS.append(d)


P("C01", "Encoding yields only the core commands the target asked for",
  "Whatever commands a pattern contains, its encoding contains only stitches, jumps, trims, stops, the configured thread-change command, speed commands if speeds are enabled and sequin commands if sequins are utilised. It contains exactly one END, as its last command, and every command of the source has the effect its documentation gives it, in order. Commands after an END in the source have no effect. The encoding carries the source's metadata, and encoding a pattern into itself gives the same as into another.",
  ["inputs", "configurations"], "all command sequences x encoder settings",
  "The tests encode a few dozen hand-written sequences; the guarantee is about every mixture of ~40 commands, flag bits and settings.",
  ["EmbEncoder.py", "EmbConstant.py"], [("Transcoder.transcode_main", "pyembroidery/EmbEncoder.py"), ("end_here", "pyembroidery/EmbEncoder.py")], ENC, ENCNOTE,
  ["EmbPattern.get_normalized_pattern(...).stitches"], [("order_index, state_trimmed, state_sequin_mode, state_jumping", "encoder state machine", "pyembroidery/EmbEncoder.py")])

P("C02", "Encoded moves never exceed the configured maximum lengths",
  "No jump of an encoding exceeds the maximum jump length and no stitch the maximum stitch length on either axis, unless the long-stitch contingency was switched off. A longer move is divided into steps along the straight line that end exactly on the requested point, and a move already within the limit is not divided. With full jumps requested, every travel to the start of a stitch run is made by a jump onto its first penetration.",
  ["inputs", "configurations"], "all command sequences x length limits x contingencies",
  "Tests check single moves with one or two limits; limits interact with ties, sequins, on-the-fly limit commands, transforms and rounding.",
  ["EmbEncoder.py"], [("interpolate_gap_stitches", "pyembroidery/EmbEncoder.py"), ("position_will_exceed_constraint", "pyembroidery/EmbEncoder.py")], ENC, ENCNOTE)

P("C03", "Encoding preserves every needle penetration, in order",
  "The needle penetrations of an encoding are those of the source, at the same places and in the same order. The only additional penetrations are those explicitly asked for: ties, sew-to subdivision of long stitches, and sequins turned into stitches. Nothing is lost, duplicated or moved by length limits, trims, thread changes, breaks or stops.",
  ["inputs", "configurations"], "all command sequences x encoder settings",
  "Tests compare counts on sample designs; a penetration lost only after a particular combination of break, trim and long move is not sampled.",
  ["EmbEncoder.py"], [("stitch_at, needle_to, sew_to", "pyembroidery/EmbEncoder.py"), ("lookahead_stitch", "pyembroidery/EmbEncoder.py")], ENC, ENCNOTE)

P("C04", "Every colour block is encoded with its planned thread and needle",
  "The encoding's threadlist names, in order, the thread of every colour block (or, for needle-based targets, the whole threadlist with each change naming its needle). Explicit thread and needle numbers in commands and preset change sequences are honoured at their place in the order; the rest are assigned in order, needles wrapping at the needle count, with filler threads where the list is short. A redundant colour break changes nothing.",
  ["inputs", "configurations"], "all sequences of sewing and thread-change commands x change modes x needle counts",
  "Tests cover a few color_change/needle_set samples; look-ahead planning, presets and ignored breaks interact over the whole sequence.",
  ["EmbEncoder.py", "EmbFunctions.py", "EmbPattern.py"], [("build_thread_change_sequence", "pyembroidery/EmbEncoder.py"), ("next_change_sequence", "pyembroidery/EmbEncoder.py")], ENC, ENCNOTE)

P("C05", "Placement settings and matrix commands transform exactly what follows",
  "Translate, scale and rotate settings place the whole design, and a matrix command transforms exactly the commands after it, composing with the ones before; scaling and rotating act about the current needle position unless the origin variant is used, and a matrix reset restores the source coordinates. No matrix command produces output of its own.",
  ["inputs", "configurations"], "all sequences of sewing and matrix commands x placement settings",
  "Tests try single matrix commands; composition order and needle-relative centres only show in sequences.",
  ["EmbEncoder.py", "EmbMatrix.py"], [("transcode_main matrix branches", "pyembroidery/EmbEncoder.py"), ("post_translate, post_scale, post_rotate", "pyembroidery/EmbMatrix.py")], ENC, ENCNOTE)

P("C06", "Trims and tie stitches occur exactly where required",
  "A trim is emitted where the source asks for one while the thread is uncut, never twice, and before thread changes if explicit trims are on. Tie stitches are made after the first penetration of a run and before each cut or change exactly when the tie setting in force asks for them; each tie stays on the line towards the neighbouring stitch, obeys the stitch limit and ends where it began. On-the-fly tie and trim options act from their position on.",
  ["inputs", "configurations"], "all sequences of sewing, trimming, breaking and tie commands x tie and trim settings",
  "Tests check isolated tie on/off samples; whether a cut is due depends on the whole history since the last one.",
  ["EmbEncoder.py"], [("tie_on, tie_off, lock_stitch", "pyembroidery/EmbEncoder.py"), ("trim_here, tie_off_and_trim_if_needed", "pyembroidery/EmbEncoder.py")], ENC, ENCNOTE)

P("C07", "Sequins follow the chosen contingency and never mix with jumps",
  "Each sequin eject becomes exactly one sequin, jump or stitch at its position, or nothing, according to the sequin contingency in force. Sequin mode is switched on before a sequin is ejected and off before any jump or trim, so a jump is never executed while sequin mode is on.",
  ["inputs", "configurations"], "all sequences of sewing, sequin and travel commands x contingencies",
  "Tests use two fixed sequin patterns; the mode toggle is hidden state crossed with every other command.",
  ["EmbEncoder.py"], [("toggle_sequins, sequin_at", "pyembroidery/EmbEncoder.py")], ENC, ENCNOTE)

P("C12", "DST files carry exactly the design that was written",
  "A DST file written from any encoded pattern contains, per the Tajima layout, exactly its stitches, jumps, trims, colour changes, stops and sequins at their exact positions, and reading it returns them unchanged. The 512-byte header is well-formed and true: stitch count, colour count, extents, end position, name, author, copyright and threads agree with the body and the pattern and are read back. Every displacement from -121 to 121 on each axis has its own record, and any record decodes to the displacement it encodes.",
  ["inputs", "configurations"], "all stitch programs, all displacements, all 3-byte records, metadata lengths",
  "Tests write one or two designs; the balanced-ternary record has 59049 displacements and the header must agree with every body.",
  ["DstWriter.py", "DstReader.py"], [("encode_record", "pyembroidery/DstWriter.py"), ("dst_read_stitches, process_header_info", "pyembroidery/DstReader.py")], RT, RTNOTE)

P("C13", "EXP files carry exactly the design that was written",
  "An EXP file written from any encoded pattern contains exactly its stitches, jumps, trims and colour changes (stops being written as colour changes) at their exact positions, in order. Reading any EXP file returns every stitch, jump, trim and change its records state.",
  ["inputs", "configurations"], "all stitch programs, all displacements, all two-byte and control records",
  "Tests convert single designs; sign, escape-byte and limit errors appear only at particular displacements.",
  ["ExpWriter.py", "ExpReader.py"], [("write", "pyembroidery/ExpWriter.py"), ("read_exp_stitches", "pyembroidery/ExpReader.py")], RT, RTNOTE)

P("C17", "U01 files carry exactly the design that was written",
  "A U01 file written from any encoded pattern contains exactly its stitches, jumps, trims, stops, needle changes and speed changes at their exact positions, in order, with a header whose stitch count, extents and last position agree with the body. Reading it returns every stitch, trim, stop, needle number and speed change.",
  ["inputs", "configurations"], "all stitch programs with speed commands, all displacements, all records",
  "Tests convert a single design and one speed command; speed flags change the meaning of the following records.",
  ["U01Writer.py", "U01Reader.py"], [("write", "pyembroidery/U01Writer.py"), ("read_u01_stitches", "pyembroidery/U01Reader.py")], RT, RTNOTE)

P("C18", "XXX files carry exactly the design that was written",
  "An XXX file written from any encoded pattern contains exactly its stitches, jumps, trims and colour changes (stops being written as colour changes) at their exact positions, and the thread colours of its blocks in order, with a header whose end offset, stitch and colour counts, size and last position agree with the body. Reading it returns all of them.",
  ["inputs", "configurations"], "all stitch programs, all displacements, all records, all colour counts",
  "Tests convert single designs; the short and long record forms and escape bytes split at particular displacements.",
  ["XxxWriter.py", "XxxReader.py"], [("write_xxx_stitches", "pyembroidery/XxxWriter.py"), ("read", "pyembroidery/XxxReader.py")], RT, RTNOTE)

P("C14", "JEF files carry exactly the design that was written",
  "A JEF file written from any encoded pattern contains exactly its stitches, jumps, colour changes and stops (as changes to colour 0) at their exact positions, trims on request, and for every block the nearest palette colour, never the same one for two different neighbouring threads. Its header is true: offset, point and colour counts, hoop code, size and hoop distances agree with the body. Reading it returns all of them, with a trim before each run of jumps that reaches the given count or distance.",
  ["inputs", "configurations"], "all stitch programs x write and read settings, all displacements, all records, all sizes around hoop limits, all colour sequences",
  "Tests convert single designs; stops, repeated colours, clipped jumps and hoop limits interact over sequences.",
  ["JefWriter.py", "JefReader.py", "EmbThreadJef.py", "EmbPattern.py"], [("write", "pyembroidery/JefWriter.py"), ("read_jef_stitches", "pyembroidery/JefReader.py"), ("interpolate_trims", "pyembroidery/EmbPattern.py")], RT, RTNOTE)

P("C19", "TBF files carry exactly the design that was written",
  "A TBF file written from any encoded pattern contains exactly its stitches, jumps, trims, stops and needle changes at their exact positions, the needle of every change and the whole threadlist in order, and its name and machine texts cut to their fields; a ct0 file asked for lists the needles. The header's counts, extents and last position agree with the body, and its fields stay at their fixed places whatever the texts. Reading it returns name, threads, needles, stitches, trims and stops.",
  ["inputs", "configurations"], "all stitch programs, all displacements, all records, all names and thread counts of a set",
  "Tests convert single designs with short names.",
  ["TbfWriter.py", "TbfReader.py"], [("write", "pyembroidery/TbfWriter.py"), ("read", "pyembroidery/TbfReader.py")], RT, RTNOTE)

P("C15", "PEC and PES files carry exactly the design that was written",
  "A PEC file, and the PEC part of a PES file of any version, contains exactly the stitches, jumps and colour changes of the encoded pattern at their exact positions (stops written as a change to the same thread), a palette entry per block, unequal for unequal threads, and icons showing the stitches of all and of each block (as text, too). PES versions also carry the design sections with the penetrations and colour of each block, and version 6 the exact threads and texts. Reading returns the stitches, jumps, cuts, changes, stops, threads and texts that were written, and of any header of versions 1 to 10 the texts (from 4) and threads (from 5).",
  ["inputs", "configurations"], "all stitch programs x five file versions, all displacements, all raw records, all texts and thread sequences of a set",
  "Tests convert single designs and check counts; record forms, colour sharing, section splitting and string lengths are combinatorial.",
  ["PecWriter.py", "PecReader.py", "PesWriter.py", "PesReader.py", "PecGraphics.py", "EmbThreadPec.py"], [("pec_encode", "pyembroidery/PecWriter.py"), ("write_pes_blocks", "pyembroidery/PesWriter.py"), ("read_pec_stitches", "pyembroidery/PecReader.py")], RT, RTNOTE)

P("C16", "VP3 files carry exactly the design that was written",
  "A VP3 file written from any encoded pattern contains, per block, exactly its stitches and cuts at their positions, a final cut, and the colour, catalogue number, description and brand of its thread; blocks start where they start in the pattern. Lengths, counts, bounds, center and size in its nested headers are true, whatever the texts. Reading it returns all of them, and reading any file returns every stitch and cut of its records.",
  ["inputs", "configurations"], "all stitch programs, all displacements, all records, all placements of blocks on a grid, all texts of a set",
  "Tests convert single designs; positions are split over center, block start and records, and skipped commands interact with them.",
  ["Vp3Writer.py", "Vp3Reader.py"], [("write_design_block, write_stitches_block", "pyembroidery/Vp3Writer.py"), ("vp3_read_colorblock", "pyembroidery/Vp3Reader.py")], RT, RTNOTE)

P("C20", "G-code and PMV files carry the design that was written",
  "A G-code file written from any encoded pattern contains exactly its stitches at their exact positions (flipped, in mm, with advancing Z), a program stop per change or stop and a final end, and comments that state its true counts, extents, threads and metadata, whatever characters those texts contain. Reading it, or any program of the supported codes, returns the stitches, changes, end and thread colours. A PMV file contains its first 100 points, none lost or wrapped, and reading returns them.",
  ["inputs", "configurations"], "all stitch programs x settings, all G-code programs over a line alphabet, all texts of a set, all raw points",
  "Tests convert a single design; modal codes, comments with special characters and interleaved commands are combinatorial.",
  ["GcodeWriter.py", "GcodeReader.py", "PmvWriter.py", "PmvReader.py"], [("write", "pyembroidery/GcodeWriter.py"), ("parse, read", "pyembroidery/GcodeReader.py"), ("write", "pyembroidery/PmvWriter.py")], RT, RTNOTE)

P("C21", "CSV and JSON files lose nothing",
  "Any pattern written as CSV (any of its versions) or JSON and read back has the same commands, including unencoded ones and their thread, needle and order numbers, at exactly the same coordinates, and the same threads with all their texts, and the same text metadata; JSON keeps numbers too. Texts may contain any characters. The counts and extents stated in the CSV are true.",
  ["inputs"], "all commands x flag triples, all command sequences, all triples of texts of a set",
  "Tests compare one sample; losslessness is a claim about every command value, coordinate and text.",
  ["CsvWriter.py", "CsvReader.py", "JsonWriter.py", "JsonReader.py", "EmbFunctions.py"], [("write, csv", "pyembroidery/CsvWriter.py"), ("read", "pyembroidery/CsvReader.py"), ("decoded_command", "pyembroidery/JsonReader.py")],
  "explicit-state enumeration of all command words, sequences and texts through the real writers and readers", RTNOTE)

P("C22", "Colour files keep every thread colour in order",
  "COL, EDR and INF files written from any threadlist hold exactly its colours in order, INF also descriptions and charts, in well-formed records with true lengths and counts, whatever the texts. Reading one appends exactly these threads to the pattern and no stitches.",
  ["inputs"], "all thread sequences up to a length over a colour set, all channel values, all pairs of texts, large lists",
  "Tests use random colours without texts.",
  ["ColWriter.py", "ColReader.py", "EdrWriter.py", "EdrReader.py", "InfWriter.py", "InfReader.py"], [("write", "pyembroidery/InfWriter.py"), ("read", "pyembroidery/InfReader.py")],
  "explicit-state enumeration of all thread lists through the real writers and readers", RTNOTE)

P("C42", "Every penetration keeps its colour through every format that stores colours",
  "A design with any changes, stops, trims and jumps, written in any format that stores thread colours and read back, has every penetration in the colour it was designed in, whether threads repeat, return, or have the same colour under different descriptions, and wherever the stops are. In formats with a palette this holds for the palette's colours.",
  ["inputs", "configurations"], "all programs up to a depth x all lists of 3 colours, repeats included x all formats and versions with colours",
  "Tests compare thread lists of one design per format; which thread a penetration ends up with depends on the order of changes and stops and on repeats in the list.",
  ["EmbThread.py", "PecWriter.py", "PesWriter.py", "JefWriter.py", "XxxWriter.py", "Vp3Writer.py", "TbfWriter.py"], [("build_unique_palette, build_nonrepeat_palette", "pyembroidery/EmbThread.py"), ("interpolate_stop_as_duplicate_color, interpolate_duplicate_color_as_stop", "pyembroidery/EmbPattern.py"), ("write", "pyembroidery/*Writer.py"), ("read", "pyembroidery/*Reader.py")],
  "explicit-state enumeration of all programs and colour lists through the real writers and readers", RTNOTE)

P("C40", "Reading into a pattern adds the file's design and changes nothing else in it",
  "A file read into a pattern that has something already, by any of the functions that read and with any settings, adds exactly the commands, threads and texts it gives on its own, in order, behind what is there, moved as a whole by the position reached or not at all. The commands and threads that were there stay as they are, also when the reading fails, and the pattern given is the one that comes back. Files read one after the other, with their ends taken out, are sewn as one design with all their penetrations.",
  ["inputs", "histories"], "all small patterns x all sample files of all formats; all pairs of files (thorough: triples); settings; ways to read; a failure at every point",
  "Tests read only colour files and one design together; the readers' own clean-up passes run over everything the pattern has.",
  ["EmbPattern.py", "DstReader.py", "JefReader.py", "PecReader.py", "PesReader.py", "Vp3Reader.py"], [("read_embroidery, static_read", "pyembroidery/EmbPattern.py"), ("read", "pyembroidery/*Reader.py")],
  "explicit-state enumeration of patterns and read histories through the real readers against the file read alone", "What a file means on its own is judged by C12 to C30; every pattern and history of the bounded space is executed.")

P("C32", "Interpolation passes rewrite only what they are asked to",
  "The stop/duplicate-colour passes are inverse to each other and keep every block's colour; frame-eject interpolation replaces exactly the jump-stop-jump sequences by one eject at the stop and keeps everything else; trim interpolation adds trims exactly where the jump count or distance asks for one while the thread is uncut, and clips only jumps that lead nowhere; merging jumps keeps every other command. None of them moves, loses or invents a penetration, and the passes that return a new pattern leave the source untouched.",
  ["inputs", "configurations"], "all command sequences over per-pass alphabets x threadlists x trim settings",
  "Tests run each pass on one or two prepared patterns; the passes are scanners with hidden state and in-place deletion, which go wrong at sequence ends and overlaps.",
  ["EmbPattern.py"], [("interpolate_trims, interpolate_frame_eject", "pyembroidery/EmbPattern.py"), ("interpolate_stop_as_duplicate_color, interpolate_duplicate_color_as_stop", "pyembroidery/EmbPattern.py"), ("get_pattern_merge_jumps, get_pattern_interpolate_trim", "pyembroidery/EmbPattern.py")],
  "explicit-state enumeration of all command sequences through the real passes against reference passes", "Every sequence over the alphabets up to the stated depth is executed on the real pass; longer sequences and other coordinates are not covered.")

P("C33", "Block views partition the design and name each block's thread",
  "Stitch blocks, colour blocks and command blocks contain exactly the pattern's commands in order, each once, divided exactly at the documented commands and paired with the thread that sews them, fillers standing in for missing threads. A stable pattern has the same blocks with the same threads. Bounds, counts and thread lists are true, fix_color_count adds exactly the missing threads, and looking at a pattern changes nothing.",
  ["inputs"], "all command sequences x threadlists of several lengths",
  "Tests iterate over blocks of sample designs; empty blocks, leading and trailing changes and short threadlists need every sequence.",
  ["EmbPattern.py"], [("get_as_stitchblock, get_as_colorblocks, get_as_command_blocks", "pyembroidery/EmbPattern.py"), ("get_stable_pattern, fix_color_count", "pyembroidery/EmbPattern.py")],
  "explicit-state enumeration of all command sequences through the real views against direct references", "Every sequence over the alphabets up to the stated depth; longer sequences are not covered.")

P("C35", "Command words hold command, thread, needle and order independently",
  "Encoding a command with any thread, needle and order (each absent or 0-254) and decoding the word gives back all four values, per the documented bit layout, and the command mask recovers the command. Views, counts and matching by command agree with it, and every command has its documented value and name.",
  ["inputs"], "all commands x all values of the argument bytes",
  "Tests decode a handful of words; the absent/zero distinction and byte boundaries hold only if they hold for all.",
  ["EmbFunctions.py", "EmbConstant.py", "EmbPattern.py"], [("encode_thread_change, decode_embroidery_command", "pyembroidery/EmbFunctions.py")],
  "exhaustive enumeration of the command word's fields through the real encode and decode", "Complete for every pair of fields at 256 values each; triples over the stated boundary values (thorough: complete triples for one command).")

P("C38", "Matrices compose, invert and apply as affine transforms",
  "After any sequence of pre/post translations, scalings, rotations, concatenations, products, inversions and resets, a matrix maps every point to where the composition of these operations maps it; post operations act on points before, and pre operations after, what the matrix already does, and scaling or rotating about a given point keeps that point. Products leave their operands unchanged, equality and printing reflect the elements, and transforming a pattern or a stitch moves the points and keeps the commands.",
  ["inputs", "histories"], "all sequences of matrix operations",
  "Tests check single operations; order of composition and centres show only in sequences.",
  ["EmbMatrix.py", "EmbPattern.py"], [("post_cat, pre_cat, matrix_multiply, inverse", "pyembroidery/EmbMatrix.py")],
  "explicit-state enumeration of all operation sequences on the real class against an affine reference", "Every sequence of operations up to the stated depth with fixed parameters per operation; agreement is to 1e-6.")

P("C27", "Formats that are only read give exactly the design in the file",
  "Reading a file of any of the formats that can only be read (10o, 100, bro, dat, dsb, dsz, emd, exy, fxy, gt, inb, jpx, ksm, max, mit, new, pcd, pcm, pcq, pcs, phb, phc, sew, shv, spx, stc, stx, tap, zhs, zxy) gives exactly the stitches, jumps, trims, thread and needle changes, stops and speed changes of its records, at their exact positions and in order, up to its end record or its last complete record, then one END. Threads, where the format has them, are those of its header, in order.",
  ["inputs"], "all control bytes and displacements of each format, all short programs of records, all thread counts",
  "There are no tests of most of these readers; each has its own sign bits, control codes and header offsets.",
  ["DatReader.py", "DsbReader.py", "DszReader.py", "KsmReader.py", "ShvReader.py", "ZhsReader.py", "BroReader.py", "JpxReader.py", "PcdReader.py", "PcmReader.py", "PcqReader.py", "PcsReader.py", "PhbReader.py", "PhcReader.py", "MaxReader.py", "MitReader.py", "SewReader.py", "EmdReader.py", "InbReader.py", "NewReader.py", "StcReader.py", "SpxReader.py", "ZxyReader.py", "A100Reader.py", "A10oReader.py", "ExyReader.py", "FxyReader.py", "GtReader.py", "StxReader.py", "TapReader.py", "ReadHelper.py"],
  [("read", "pyembroidery/*Reader.py"), ("signed8, signed16, signed24", "pyembroidery/ReadHelper.py")],
  "explicit-state enumeration of all records and short record programs of 30 formats against independent layout descriptions", "All control bytes with all values of either displacement byte, and all programs over the record alphabet up to the stated length; longer programs and malformed headers are not covered.")

P("C28", "Truncated files never read as stitches that were not in them",
  "A file cut off at any byte either is refused with an error or reads as an initial part of the whole design: the same commands at the same positions, in order, with no invented stitches, and reading always ends. A binary file cut inside its list of stitch records reads without an error, for the formats whose records end with the file. In a format with an end record, bytes after the end of the file change nothing.",
  ["inputs", "crash_points"], "all cut points of all short designs in all readable formats; all one-byte tails and others",
  "Tests read whole files only; a cut can fall inside any field of any record, with thousands of cut points per file.",
  ["ReadHelper.py", "EmbCompress.py", "PecReader.py", "PesReader.py", "Vp3Reader.py", "JefReader.py", "DstReader.py", "XxxReader.py"],
  [("read", "pyembroidery/*Reader.py"), ("EmbCompress.decompress", "pyembroidery/EmbCompress.py")],
  "exhaustive enumeration of crash points: every cut of every enumerated file, read by the real readers", "Every byte offset of every file in the bounded set; files longer than the set's, and corruption other than truncation, are not covered.")

P("C30", "HUS streams expand exactly, and HUS files read as their design",
  "Expanding any well-formed compressed stream of the HUS family, whatever its code tables, blocks, match lengths and distances, gives exactly the bytes that were compressed, and never more than the size asked for when it was told one. compress() makes such streams for data of any length. Reading a HUS file gives exactly its stitches, jumps, changes, trims and end at the stated positions, and the threads of its colour indexes.",
  ["inputs"], "all token sequences x code table shapes x block splits; all command programs x stream forms",
  "There is no active test of HUS; tables, runs, blocks and distances have hundreds of shapes which interact bit by bit.",
  ["EmbCompress.py", "HusReader.py", "EmbThreadHus.py"], [("EmbCompress.decompress", "pyembroidery/EmbCompress.py"), ("load_character_huffman", "pyembroidery/EmbCompress.py"), ("read", "pyembroidery/HusReader.py")],
  "explicit-state enumeration of all token sequences and code-table shapes, written by an independent compressor and expanded by the real code", "All sequences over the token alphabet up to the stated length and every listed class of table, run, length and distance; longer mixtures are not covered.")

P("C31", "Builder operations put exactly the commands they name where they say",
  "Every way of adding to a pattern - shorthand methods, relative, absolute and positioned insertion, commands, blocks in all documented forms, stitch blocks, += - appends or inserts exactly the documented commands, threads and texts, and nothing else. Relative operations continue from the last added location, which translation and transformation move along and which parameters of add_command and insertions in the middle do not. Reading access, equality and copies agree with the content.",
  ["inputs", "histories"], "all sequences of builder operations",
  "Tests build a few designs; the hidden previous location couples every operation with those before it.",
  ["EmbPattern.py"], [("add_stitch_relative, insert_stitch_relative", "pyembroidery/EmbPattern.py"), ("add_block, add_stitchblock, __iadd__", "pyembroidery/EmbPattern.py"), ("translate, transform, move_center_to_origin", "pyembroidery/EmbPattern.py")],
  "explicit-state enumeration of all operation sequences on the real pattern against a list model", "Every sequence of operations with fixed arguments up to the stated depth is executed step by step on the real class; longer sequences and other arguments are not covered.",
  state=[("_previousX, _previousY", "location relative operations continue from", "pyembroidery/EmbPattern.py")])

P("C34", "Sums and copies of patterns sew like their parts and stay independent",
  "A pattern made by +, +=, add_pattern or a sum of several sews exactly what the first sews and then exactly what the next sews, each in its own thread colours, with one colour change between them where the colours differ and none where they are equal and no change is asked for, and ends once. Operands are untouched, and results, copies, patterns derived from another (normalized, stable, merged) and operands never share state: changing one does not show in another. A displacement, scale or rotation given with the addition applies to the added design.",
  ["inputs", "histories"], "all pairs and triples of small designs x threadlists x operators",
  "Tests add two or three designs; the outcome depends on how each operand begins and ends (END, pending changes, equal colours, empty).",
  ["EmbPattern.py"], [("add_pattern", "pyembroidery/EmbPattern.py"), ("__add__, __radd__, __iadd__, copy", "pyembroidery/EmbPattern.py")],
  "explicit-state enumeration of all pairs and triples of designs through the real operators and encoder", "Every pair of designs up to the stated size, each with all its threadlists over two colours; larger designs and what is added after a scaled or rotated design are not covered.")

P("C41", "Numbers carried by a command never change what the command is",
  "A command word may carry a thread, needle and order number. Whatever the command and the numbers, every writer, encoded or raw, every encoding and every operation on patterns (views, counts, bounds, passes, insertions, sums, transforms) does with it exactly what it does with the bare command. Only where a number is what is asked for does it matter: thread and needle numbers of thread changes, formats that state the numbers themselves, and the alternative form of VP3 stitches.",
  ["inputs", "configurations"], "all command sequences up to a depth x every choice of one command or all that carry numbers x all writers, encodings and operations",
  "Tests use bare commands nearly everywhere; one comparison of a whole command word instead of its command shows only with numbers in the right place.",
  ["EmbPattern.py", "EmbEncoder.py", "DstWriter.py", "PecWriter.py", "PmvWriter.py"], [("COMMAND_MASK, decode_embroidery_command", "pyembroidery/EmbFunctions.py"), ("write_embroidery", "pyembroidery/EmbPattern.py"), ("write", "pyembroidery/*Writer.py")],
  "explicit-state enumeration of command sequences with numbers, each executed on the real code and on its bare counterpart", "What the bare commands do is judged by the other properties; every sequence of the bounded space is executed through everything named.")

P("C36", "A thread has the colour and texts it was given, in any notation",
  "Every documented notation of a colour - number, 3, 4, 6 or 8 hex digits, tuple, list, X11/CSS/SVG name in any letter case, thread object, dict with any of its keys - gives exactly that colour, and every text of a thread or dict arrives in its own field and no other. Threads are equal exactly if colour and all texts are equal, equal threads have equal hashes, and comparison with numbers and colour strings compares the colour. Reading a colour back in any form and printing a thread reproduce it.",
  ["inputs"], "all names, hex notations, channel values, dict key choices and pairs of threads",
  "Tests try a few colours; one wrong name among 147 or one swapped channel is not sampled.",
  ["EmbThread.py"], [("EmbThread.set, parse_string_color, color_hex", "pyembroidery/EmbThread.py"), ("__eq__, __hash__", "pyembroidery/EmbThread.py")],
  "exhaustive enumeration of colour notations, field choices and pairs through the real class", "Complete over names, 3-digit strings, single channels and dict keys; triples of channel values over the stated set.")

P("C37", "Palettes are the machines' threads and map colours to the nearest",
  "The built-in thread tables hold the documented threads of each format in order, and every caller gets its own. Mapping a colour into a palette gives the nearest remaining entry by the documented distance. A non-repeating mapping never gives two different neighbouring threads the same entry, using the nearest or next nearest; a unique mapping gives different colours different entries while there are enough, and equal colours the same.",
  ["inputs"], "all colours of a grid and around every palette entry; all short threadlists on small palettes",
  "Tests look up a few colours; ties, missing entries and repeated neighbours need every combination.",
  ["EmbThread.py", "EmbThreadPec.py", "EmbThreadJef.py", "EmbThreadHus.py", "EmbThreadSew.py", "EmbThreadShv.py"],
  [("find_nearest_color_index, build_unique_palette, build_nonrepeat_palette", "pyembroidery/EmbThread.py"), ("get_thread_set", "pyembroidery/EmbThreadPec.py")],
  "exhaustive enumeration of colours and threadlists through the real mappings against the published distance", "Complete over the stated colour grid and threadlists; the tables are compared entry by entry with a recorded copy.")

P("C24", "Settings given when writing take precedence over a format's own",
  "A file is made with exactly the encoding settings given to the write, each of them, whatever its value (also false, None, zero or one), and with the format's own default for each one not given. So writing with settings equals encoding the pattern with those settings and writing the result as it is, for every format, for every function that writes, and for the formats written unencoded when encoding is asked for. The settings and pattern given are not changed.",
  ["configurations"], "all sets of up to three settings (four in the thorough tier) x their values x writers x designs",
  "Tests give one or two settings to one or two formats; the defaults of a format only collide with particular settings.",
  ["EmbPattern.py"] + [f + "Writer.py" for f in "Dst Exp Jef Pec Pes Pmv Png Svg Tbf U01 Vp3 Xxx Gcode Csv Generic".split()],
  [("write_embroidery", "pyembroidery/EmbPattern.py"), ("MAX_JUMP_DISTANCE, FULL_JUMP, ROUND, SEQUIN_CONTINGENCY and others", "pyembroidery/*Writer.py")],
  "explicit-state enumeration of all settings combinations of the bounded space through the real writers against encoding explicitly", "Every set of the bounded space; the encoding itself is judged by C01 to C05.")

P("C25", "PNG images show exactly the sewn lines in their thread colours",
  "A PNG written from any pattern is a valid image just large enough for the design. Exactly the pixels within the line width of a line between two successive penetrations of a run are drawn, in the colour of the thread sewing it, later lines over earlier ones; every other pixel has the background asked for, or is transparent. No line is drawn across jumps, trims or thread changes, none wraps around an edge, and guides alter only the top and left margins.",
  ["inputs", "configurations"], "all stitch programs on a small canvas x drawing settings; all single lines up to a size x widths",
  "Tests only check that a file is written.",
  ["PngWriter.py"], [("PngBuffer.draw_line, plot", "pyembroidery/PngWriter.py"), ("write_png", "pyembroidery/PngWriter.py"), ("write", "pyembroidery/PngWriter.py")],
  "explicit-state enumeration of all stitch programs through the real writer against an ideal-line pixel reference", "Every program over the alphabet up to the stated depth, decoded by an independent PNG decoder; larger canvases and other settings are not covered.")

P("C26", "SVG, TXT and template exports state the whole design truly",
  "An SVG is well-formed XML with one path per sewn run, through exactly its penetrations and in its thread's colour, and a true size and view box. A TXT lists every command of the encoding with its position, its thread's colour, its name and number; the embroidermodder variant lists every command that format has, with its flags and colour index. A template export writes the chosen segment for every command with true values, and starts, joins and ends of documents, colours and blocks balanced, nested and numbered.",
  ["inputs", "configurations"], "all command sequences x output variants x template sets",
  "Tests compare one design or only write a file; nesting and colour numbering depend on the order of changes, trims and ends.",
  ["SvgWriter.py", "TxtWriter.py", "GenericWriter.py"], [("create_svg_dom", "pyembroidery/SvgWriter.py"), ("write_normal, write_mimic", "pyembroidery/TxtWriter.py"), ("GenericWriter.write", "pyembroidery/GenericWriter.py")],
  "explicit-state enumeration of all command sequences through the real writers against parsed output and a template reference", "Every sequence over the alphabet up to the stated depth; texts in templates and other settings are not covered.")

P("C08", "Repeated encodings and conversions settle and never drift",
  "Encoding an encoded pattern again with the same settings changes nothing (apart from ties, which every encoding makes). Converting a design to and fro between formats, or over and over to one, settles: after a few rounds, at most one per colour block, nothing changes any more. No chain of conversions among the formats that record needle penetrations exactly loses, adds or moves a penetration of a design in whole units, and none among the formats that record thread colours changes the colour of any.",
  ["histories", "configurations"], "all command sequences x settings encoded twice; all cycles of one and two formats; all chains of formats",
  "Tests convert one design once; drift and growth show only in the second or third conversion and depend on the pair of formats.",
  ["EmbEncoder.py", "EmbPattern.py", "DstReader.py", "Vp3Writer.py", "JefReader.py", "XxxReader.py"], [("Transcoder.transcode", "pyembroidery/EmbEncoder.py"), ("get_normalized_pattern", "pyembroidery/EmbPattern.py"), ("convert", "pyembroidery/PyEmbroidery.py")],
  "explicit-state enumeration of all conversion histories up to a depth on the real writers, readers and encoder", "Every chain and cycle up to the stated length on every design of the bounded set; designs in fractions of a unit and transforms are not covered here.")

P("C09", "Writing, encoding and asking never change the pattern or the settings",
  "Writing a pattern to any format, encoding it, converting it into another view, or asking it anything leaves its stitches, threads, extras, relative position and the given settings exactly as they were, also when the operation fails. What is returned shares nothing with it: changing a normalised, copied or derived pattern never shows in the source, and changing the source never shows in the result.",
  ["inputs", "configurations"], "all command sequences x every writer, encoder setting and query",
  "Tests look at the output only; a change of the input needs the one command, setting or failure that goes through the careless path.",
  ["EmbPattern.py", "EmbEncoder.py", "PyEmbroidery.py"], [("write_embroidery", "pyembroidery/PyEmbroidery.py"), ("get_normalized_pattern, copy, get_pattern_*", "pyembroidery/EmbPattern.py")],
  "explicit-state enumeration of all command sequences through every writer, encoding and query, comparing the whole input state before and after", "Every sequence over the alphabet up to the stated depth with every operation; longer sequences are not covered.")

P("C10", "Results depend only on the arguments, never on what ran before",
  "Whatever was read, written, encoded or built before in the same process, whether it succeeded or failed, and whatever the caller did to earlier results, each operation gives exactly what it gives in a fresh process. The order of dictionaries and sets, and so the string hash seed, has no influence on any file or pattern.",
  ["histories"], "all pairs and triples of operations in one process; all string hash seeds of a set",
  "Each test looks at one operation; shared defaults, module state and leaked palettes show only in a later operation.",
  ["EmbPattern.py", "EmbThreadPec.py", "EmbThreadJef.py", "PecGraphics.py", "PyEmbroidery.py"], [("get_thread_set", "pyembroidery/EmbThread*.py"), ("get_graphic_as_list, get_blank", "pyembroidery/PecGraphics.py"), ("settings defaults", "pyembroidery/*Writer.py")],
  "explicit-state enumeration of all operation histories up to a depth in one process against fresh processes", "Every pair and the stated triples of operations; longer histories are not covered.")

P("C11", "Threads working on their own patterns do not disturb each other",
  "Two threads that read, write, encode, query or build their own patterns at the same time each get exactly what they get alone, under every schedule. The same holds for two threads that only write, encode or query one shared pattern, which stays unchanged.",
  ["schedules"], "all pairs of operations x all schedules with one preemption at any line (two for small operations)",
  "Tests run in one thread; a switch has to fall between two particular lines while module state is being used.",
  ["EmbPattern.py", "EmbEncoder.py", "PyEmbroidery.py", "PecGraphics.py", "EmbCompress.py"], [("all module-level state", "pyembroidery/*.py"), ("write_embroidery", "pyembroidery/PyEmbroidery.py")],
  "stateless exploration of two real threads under a controlled scheduler with a preemption bound", "Every schedule of the bounded set; more preemptions and switches inside builtins are not covered.")

P("C29", "Files by name are the right format, whole, and nothing else is touched",
  "Reading or writing by file name, in any letter case and by every function that takes a name, does exactly what the format of its extension does on a stream, with the same bytes on every locale, creating or replacing only the named file. Converting a file equals reading and writing it. An unsupported, unreadable or missing name gives the documented result and leaves the directory as it was.",
  ["inputs", "histories"], "all extensions x functions x names; all format pairs; all histories of operations on a directory",
  "Tests write one file per format and look only at that file.",
  ["PyEmbroidery.py", "ReadHelper.py", "WriteHelper.py"], [("read, write, convert, write_embroidery, read_embroidery", "pyembroidery/PyEmbroidery.py"), ("supported_formats", "pyembroidery/PyEmbroidery.py")],
  "explicit-state search over all operation histories on a small directory of real files against a model of it", "Every format, function and history of the bounded set; other file systems and names are not covered.")

P("C39", "A failing stream is reported, and leaves nothing broken behind",
  "If any operation on the stream or file being written or read fails, that very error reaches the caller: no output cut short is ever reported as success. The caller's stream stays open, a file opened by name is closed, the pattern and settings being written stay unchanged, and repeating the operation afterwards gives the complete result.",
  ["fault_sequences"], "all stream operations of all writers and readers x kinds of failure, and pairs of failures",
  "Tests write to files that never fail; a swallowed error needs the failure at the one operation with a careless handler.",
  ["PyEmbroidery.py", "ReadHelper.py", "WriteHelper.py", "DstReader.py", "PesReader.py", "JsonReader.py"], [("read_embroidery, write_embroidery", "pyembroidery/PyEmbroidery.py"), ("read_int_8 and others", "pyembroidery/ReadHelper.py")],
  "exhaustive enumeration of fault points: every stream operation of every execution fails in turn, under a fault injector", "Every fault point of the sample designs; streams that silently return less than asked are not covered.")

P("C23", "Fractions of a unit never add up to an error in any format",
  "A design in fractions of a unit, written to any format and read back, has every penetration within half a unit of where it was asked for, up to one displacement common to the whole design, however many stitches, jumps, trims and changes there are, with and without rounding and encoding. The formats that hold fractions return them.",
  ["inputs", "configurations"], "all sequences of fractional moves and commands, repeated, x formats x encodings",
  "Tests use whole numbers or a single fraction; accumulated error needs long sequences and depends on every command between.",
  ["EmbEncoder.py", "DstWriter.py", "ExpWriter.py", "JefWriter.py", "PecWriter.py", "Vp3Writer.py", "XxxWriter.py", "U01Writer.py", "TbfWriter.py"], [("dx = int(round(x - xx)); xx += dx", "pyembroidery/*Writer.py"), ("round", "pyembroidery/EmbEncoder.py")],
  "explicit-state enumeration of all programs of fractional moves through the real writers and readers", "Every sequence over the alphabet up to the stated depth, repeated; other fractions and longer mixtures are not covered.")
