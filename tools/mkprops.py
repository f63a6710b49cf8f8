#!/usr/bin/env python3
"""Writes properties.jsonl (the texts below) and MANIFEST.json (from props.py): run after editing either."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
L = []
def P(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
IO = ["the codec's encode output and decode result"]
LOSS = "decoding what %s wrote yields an image of the same dimensions and the same 8-bit RGB pixels, for every non-empty image whatever its pixel format (alpha is dropped, grey becomes RGB). The codec reports itself as lossless."
P("C01", "hufman: decoding returns the encoded image", "With the hufman codec, " + LOSS % "it", ["inputs"],
  "every image: any dimensions, any pixel bytes, any number of distinct colours and frequencies, any hash iteration order",
  "The tests round-trip one small image and a handful of sequences; colour counts, code lengths and padding depend on the frequencies of the whole image.",
  ["src/codec/hufc.rs", "src/huf.rs", "src/bit.rs", "src/ser.rs"], [("Huffman coder over pixels", "src/huf.rs"), ("codec", "src/codec/hufc.rs"), ("bit reader and writer", "src/bit.rs")], IO)
P("C02", "zip(dict): decoding returns the encoded image or byte stream", "With the zip(dict) codec, " + LOSS % "it" + " Equally, decompressing what the dictionary compressor wrote yields the compressed byte stream, for every stream, however long: also one that fills the dictionary.", ["inputs", "histories"],
  "every image and every byte stream of any length; the dictionary's history is part of the stream", "The tests use a few short fixed streams; encoder and decoder must keep identical dictionaries after every history, including beyond 65536 entries.",
  ["src/zip/dict.rs", "src/codec/zipc.rs"], [("online dictionary, encoder and decoder side", "src/zip/dict.rs"), ("codec", "src/codec/zipc.rs")], IO)
P("C03", "zip(back): decoding returns the encoded image or byte stream", "With the zip(back) codec, " + LOSS % "it" + " Equally, decompressing what the look-back compressor wrote yields the compressed byte stream, for every stream, however long: also beyond the look-back window.", ["inputs", "histories"],
  "every image and every byte stream of any length, any position, distance and length of repetitions", "The tests use short fixed streams; window wrap-around, maximum distances and lengths, and symbol splits only show on particular long histories.",
  ["src/zip/back.rs", "src/codec/zipc.rs"], [("look-back window, match search, symbol format", "src/zip/back.rs"), ("codec", "src/codec/zipc.rs")], IO)
P("C04", "hilbert(rle): decoding returns the encoded image", "With the hilbert(rle) codec, " + LOSS % "it", ["inputs"],
  "every image: any dimensions (square or not), any pixels, any run lengths including 255 and beyond", "The tests sample a few images; run splitting at 255 and the curve on non-power-of-two rectangles depend on every dimension and run length.",
  ["src/codec/hilbertc.rs", "src/hilbert.rs"], [("run-length coding along the curve", "src/codec/hilbertc.rs"), ("curve", "src/hilbert.rs")], IO)
P("C05", "hilbert(zip): decoding returns the encoded image", "With the hilbert(zip) codec, " + LOSS % "it", ["inputs"],
  "every image: any dimensions, any pixels", "Only a few sample images are tested.", ["src/codec/hilbertc.rs", "src/hilbert.rs", "src/zip/dict.rs"], [("dictionary compression along the curve", "src/codec/hilbertc.rs")], IO)
P("C06", "delta: decoding returns the encoded image", "With the delta codec, " + LOSS % "it", ["inputs"],
  "every image: any dimensions, any pixels, all channel differences from -255 to 255", "Only a few sample images are tested; a difference of two arbitrary bytes must survive for all 65536 pairs in every channel.",
  ["src/codec/hilbertc.rs", "src/huf.rs", "src/ser.rs"], [("differences between neighbours on the curve, Huffman coded", "src/codec/hilbertc.rs")], IO)
P("C07", "The Hilbert traversal visits every pixel exactly once", "For every image, traversing it along the Hilbert curve yields each of its pixels exactly once, with the colour it has in the image. The restriction to the square inside yields each pixel of the largest power-of-two square at the origin exactly once; the extension to the square around still yields each pixel of the image exactly once.", ["inputs"],
  "every width and height, every pixel position, every content", "The tests check a few sizes by comparing with fixed lists.", ["src/hilbert.rs"], [("curve iterator and linearisations", "src/hilbert.rs")], ["hilbert::linearize*, hilbert::iter"])
P("C08", "The Huffman coder is decodable and of minimal size", "For every sequence of symbols, decoding what the Huffman coder wrote yields the sequence again, whatever order equal frequencies are met in. The payload takes no more bits than with any other prefix code for the same frequencies.", ["inputs", "schedules"],
  "every symbol sequence and every vector of frequencies; every hash iteration order", "The tests encode fixed strings; minimality quantifies over every frequency vector and every competing prefix code.", ["src/huf.rs", "src/bit.rs"], [("tree construction", "src/huf.rs"), ("encoder and decoder tables", "src/huf.rs")], ["huf::encode_all, huf::decode_all"])
P("C09", "Run-length coding along the curve groups and restores pixels as documented", "With tolerance d, consecutive pixels along the curve share a run exactly as long as each lies within distance d of the mean of the run so far and the run has fewer than 255 pixels; every run costs the same number of bytes. Decoding gives each pixel of a run the rounded mean of its run, so with d = 0 the colours come back exactly.", ["inputs"],
  "every image, every tolerance", "The tests check a few images with one tolerance; the boundary distance and the 255 limit need particular inputs.", ["src/codec/hilbertc.rs", "src/geom.rs"], [("run segmentation, running average", "src/codec/hilbertc.rs"), ("colour distance", "src/geom.rs")], IO)
P("C10", "cluster-colors(n): same dimensions, at most n colours, class means", "With cluster-colors(n), n >= 1, encoding succeeds and decoding yields an image of the same dimensions with at most n colours in which pixels of equal colour stay equal, and each colour is the (rounded down) mean of the pixels that became it. When the image has at most n colours it comes back unchanged.", ["inputs", "schedules"],
  "every image, every n, every hash iteration order and every random choice", "No test runs the codec; the result depends on hash order and random numbers that a test cannot steer.", ["src/codec/clusterc.rs", "src/kmeans.rs", "src/huf.rs"], [("colour clustering", "src/codec/clusterc.rs"), ("k-means", "src/kmeans.rs")], IO)
P("C11", "voronoi(n): each decoded pixel takes the colour of its nearest centre", "With voronoi(n), n >= 1, encoding succeeds and decoding yields an image of the same dimensions with at most n colours. Decoding a stream of centres gives every pixel the colour of a centre nearest to it, for any centre positions. When n is at least the number of pixels the image comes back unchanged.", ["inputs", "schedules"],
  "every image and n; every list of centres inside or outside the image", "No test runs the codec.", ["src/codec/clusterc.rs", "src/kmeans.rs"], [("5-dimensional clustering, nearest-centre redraw", "src/codec/clusterc.rs")], IO)
P("C12", "k-means ends with a partition of the points and their means", "For every list of points and every number of clusters requested (at least one), clustering ends, and the clusters it returns contain every point exactly once, unchanged. There are no more clusters than requested, and the centroid of every non-empty cluster is the mean of its points. Distinct points no more numerous than the clusters requested each get a cluster of their own.", ["inputs", "schedules"],
  "every list of points, every cluster count, every random choice", "The tests cluster three fixed lists.", ["src/kmeans.rs"], [("assignment with neighbour lists, centroid update", "src/kmeans.rs")], ["kmeans::cluster"])
P("C13", "Codec strings: the documented ones are accepted, any other text is an error", "Parsing a codec string never panics: it gives a codec or an error. Every documented codec string is accepted, and gives a codec with the documented name that reports itself as lossless exactly when it is. The parser of function-call notation accepts exactly name(args) with balanced parentheses, and splits name and arguments at the right places whatever characters they contain.", ["inputs"],
  "every string, including non-ASCII and unbalanced ones", "The tests parse a few dozen fixed ASCII strings.", ["src/prs.rs", "src/codec.rs", "src/codec/hilbertc.rs", "src/codec/zipc.rs", "src/codec/hufc.rs", "src/codec/clusterc.rs"], [("function-call parser, alternatives", "src/prs.rs"), ("FromStr of the codecs", "src/codec/*.rs")], ["AnyCodec::from_str, name, is_lossless"])
P("C14", "The reported error is the mean squared difference of the channels", "The error the benchmark reports for two images of the same dimensions is the average over all pixels of the sum of the squared channel differences: zero exactly when the images agree, and independent of their order.", ["inputs"],
  "every pair of images of equal dimensions", "No test computes it.", ["src/bench.rs"], [("error computation", "src/bench.rs")], ["the error column of the benchmark"])
P("C15", "Encoding reports a failing writer and never depends on how writes are split", "When the destination fails after any number of bytes, every codec's encode returns an error, does not panic, and has written a prefix of the regular encoding. A destination that accepts only part of each write, or is interrupted, receives exactly the regular encoding.", ["fault_sequences", "inputs"],
  "every byte position at which the destination fails, every way of splitting writes, every image", "No test uses a failing or partial writer.", ["src/ser.rs", "src/bit.rs", "src/huf.rs", "src/zip/dict.rs", "src/zip/back.rs", "src/codec/*.rs"], [("error propagation from serialisation and bit writer", "src/ser.rs, src/bit.rs")], IO)
P("C16", "A truncated encoding is not decoded into an image", "Decoding a proper prefix of an encoding, of whatever length, yields no image rather than a panic or a partial image. (For hufman only up to the padding, and so on: a prefix is either refused or, when what is cut off carries no information, decoded to the same image.)", ["crash_points", "inputs"],
  "every image and every truncation point", "The tests never truncate an encoding.", ["src/codec/*.rs", "src/zip/*.rs", "src/huf.rs", "src/ser.rs"], [("end-of-stream handling", "src/codec/*.rs, src/zip/*.rs, src/huf.rs")], IO)
P("C17", "Decoding arbitrary bytes never panics", "Decoding any byte string, with a header announcing a small non-empty image, gives either no image or an image of the announced dimensions, and never panics.", ["inputs"],
  "every payload", "The tests never decode malformed data.", ["src/codec/*.rs", "src/zip/*.rs", "src/huf.rs", "src/ser.rs"], [("validation while decoding", "src/codec/*.rs, src/zip/*.rs, src/huf.rs")], IO)
P("C18", "Serialised values are self-delimiting and read back unchanged", "Every serialised value reads back equal and consumes exactly the bytes written for it, whatever follows them. A stream that ends within a value yields no value.", ["inputs"],
  "every value of every serialisable type, every continuation, every truncation", "The tests round-trip a few values.", ["src/ser.rs"], [("Serialize and Deserialize", "src/ser.rs")], ["Serialize::serialize, Deserialize::deserialize"])
P("C19", "Bits written are the bits read, in order", "Any sequence of bits, pushed one by one or in groups, reads back in the same order from the bytes written, in the bit order chosen; only the last byte is padded, with zeros. Writing k bits takes ceil(k/8) bytes.", ["inputs", "histories"],
  "every sequence of bits and every grouping of it", "The tests write fixed sequences.", ["src/bit.rs"], [("bit arrays, reader, writer", "src/bit.rs")], ["bit reader and writer"])
P("C20", "The distance between colours is a metric: the exact Euclidean distance", "The distance of two colours is the square root of the sum of the squared channel differences, correctly rounded; it is symmetric and zero exactly for equal colours.", ["inputs"],
  "every pair of colours (2^48)", "The tests check four pairs.", ["src/geom.rs"], [("colour distance", "src/geom.rs")], ["Distance for colours"])
P("C21", "The zip stages expand a stream by at most a stated amount", "The look-back compressor never writes more than the stream plus two bytes for each started block of 32767 bytes. The dictionary compressor never writes more than two bytes for each byte, plus two.", ["inputs"],
  "every byte stream", "No test measures sizes of arbitrary streams.", ["src/zip/dict.rs", "src/zip/back.rs"], [("symbol formats", "src/zip/dict.rs, src/zip/back.rs")], ["size of the compressed stream"])
P("C22", "A benchmark run reports every measured image once, with the right figures", "Measuring a list of images with a codec writes a table with a header and exactly one row for each image that was measured: its file name, the size of its encoding, that size in percent of three bytes per pixel, and the error of the decoded image; whatever the order in which the worker threads get to the images. An image that cannot be opened, encoded or decoded, or that a lossless codec does not give back unchanged, gets no row and does not affect the others.", ["schedules", "inputs", "faults"],
  "every list of images, every outcome for each of them, every order in which they are worked on", "Tests do not run the benchmark.", ["src/bench.rs"], [("parallel map over the images, table", "src/bench.rs")], ["CSV output"])
NA = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L:
        if p["id"] in props.PROPS or p["id"] in NA:
            f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in L:
    i = p["id"]
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the crate's LLVM IR with Z3", level="model_checking",
                           level_note="Holds for every input within the bounds listed in the evidence file (sizes, alphabets, positions), nothing is claimed outside them. " + props.PROPS[i].get("note", "") +
                           "Trusts the executor's LLVM semantics (cross-checked natively on every run), the shims for hash maps, randomness, rayon and regex, and Z3."))
    elif i in NA:
        na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd="python3 build.py roundtrip && python3 build.py roundtrip --real", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check copies /repo/src into a scratch crate and adds the harness modules there. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
