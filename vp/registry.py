from runner import Harness as H
PROPS = {}
NOT_APPLICABLE = {
 "C01": "the settings are read by a Tcl interpreter running the configuration files, through variables linked to the C ones (Tcl_LinkVar) in conf.c, which is generated when building; "
        "what a setting controls is only visible through the interpreter, whose code is not in the repository and cannot be encoded within reach. What the settings control is decided in the other properties, where they are arbitrary values",
 "C02": "which configurations are accepted is decided by the Tcl interpreter (syntax, conversions of linked variables) followed by checks in the generated conf.c; the interpreter is not in the repository and cannot be encoded within reach. "
        "The parsers of lists and numbers used on the values are decided in U01 and N13",
}
def prop(pid, *hs, assumptions=(), note=""):
    PROPS[pid] = {"harnesses": list(hs), "assumptions": list(assumptions), "note": note}

prop("B01",
  H("sbn_unpack", "sbn.c", repo=["src/sbn.c"], unwind=20,
    unwindset=[("vp_nd_bytes.0", 80)],
    bounds="rawdata_size 0..5200 (all), the first 72 bytes symbolic, the rest unconstrained"),
  H("sbn_ctrlcopy", "sbn.c", repo=["src/sbn.c"], unwind=70, unwindset=[("vp_nd_bytes.0", 80)],
    bounds="control header of 0..5200 bytes, destination of 1..58 bytes"),
)
prop("B02",
  H("sbn_wmo", "sbn.c", repo=["src/sbn.c"], unwind=41, mem=True, unwindset=[("vp_nd_bytes.0", 80), ("vp_skip.0",5), ("tok.0",5), ("tok.1",7), ("sbn_wmo.0",54), ("validate_wmo.0",7), ("validate_wmo.1",7), ("validate_wmo.2",7),("validate_wmo.3",7), ("vp_vsscanf.1",3), ("vp_vsscanf.4",7),("strlen.0",8),("strcmp.0",8),("allof.0",8)],
    bounds="data block of 0..40 arbitrary bytes, alone or as control header with or without communications header",
    thorough=dict(unwind=60, defs=["NWMO=56"], unwindset=[("vp_nd_bytes.0", 90)], bounds="data block of 0..56 arbitrary bytes", timeout=6000)),
)
prop("B03",
  H("assembly", "assembly.c", repo=["src/framep.c", "src/pctl.c", "src/mfile.c"], unwind=7, mem=True,
    extra=["vp_stats.c"], unwindset=[("memcpy.0",4),("strlen.0",20),("strcpy.0",20)],
    bounds="one frame with every header value from every state of 2 channels (an inductive step: histories of any length), fragments of 0..2 bytes", defs=["K=1", "VP_NO_FORMAT", "VP_MEMBIG=sizeof(struct frame_level_header)"],
    thorough=dict(defs=["K=2", "VP_NO_FORMAT", "VP_MEMBIG=sizeof(struct frame_level_header)"], unwind=16, timeout=9000, bounds="two frames from every state of 2 channels, every header value, fragments of 0..2 bytes")),
)
PROC = dict(src="process.c", repo=["src/nbsp.c", "src/mfile.c", "src/spooltype.c", "src/packfp.c", "src/framep.c"], mem=True, extra=["vp_stats.c"],
  unwindset=[("memcpy.0", 30), ("strlen.0", 6), ("strncpy.0", 60), ("memset.0", 60), ("memcmp.0",60), ("calc_checksum.0", 100)])
prop("B04",
  H("mfile_append", "mfile.c", repo=["src/mfile.c"], unwind=15, mem=True, unwindset=[("realloc.0",25),("write_memfile.0",5)],
    bounds="one append of 0..9 bytes and two reads from every state of a file with room 4 (inductive step), any reallocation failing"),
  H("mfile_adjust", "mfile.c", repo=["src/mfile.c"], unwind=15, mem=True,
    bounds="every state of a file with room 4, estimates 0..16"),
  H("mfile_frames", "mfile.c", repo=["src/mfile.c"], unwind=6, mem=True, unwindset=[("memcpy.0",20)],
    bounds="2 frames of 1..2 bytes, written whole or in parts"),
  H("expand", unwind=29, bounds="1..2 fragments of 1 and 2 bytes, each compressed or not, any of them failing to expand; the codec itself is a stand-in", defs=["VP_NO_FORMAT"], **PROC),
)

prop("B06",
  H("rtx_process", unwind=29, bounds="any product of 0..27 bytes, any answer of the retransmission data base, every storage failure", defs=["VP_NO_FORMAT"], **PROC),
  H("rtxdb", "rtxdb.c", repo=["src/rtxdb.c", "src/ertxdb.c"], unwind=7, mem=True, defs=["VP_NO_FORMAT"], unwindset=[("memset.0", 60)],
    bounds="every history of 3 records or periods, any data base operation failing",
    thorough=dict(defs=["VP_NO_FORMAT", "NHIST=5"], bounds="every history of 5 records or periods", unwind=9, timeout=5000)))
prop("P04",
  H("export", unwind=29, bounds="any product, spool kind, pattern outcome, storage failure and export failure; contents up to 27 bytes", defs=["VP_NO_FORMAT"], **PROC))
prop("P05",
  H("spool_kinds", unwind=29, bounds="any product of 0..27 bytes, spool kind, header option and storage failure", defs=["VP_NO_FORMAT"], **PROC))

NQ = dict(src="qdb.c", repo=["src/nbspq.c", "src/libqdb/qdb.c"], defs=["VP_NO_FORMAT"], unwindset=[("nbspq_fifo.0",12),("run.0",12)])
PQ = dict(src="pctldb.c", repo=["src/pctl.c", "src/pctldb.c", "src/pctlmfdb.c", "src/mfile.c"], defs=["VP_NO_FORMAT"], unwindset=[("qput.0", 103)])
prop("P01",
  H("fifo", unwind=9, bounds="two products queued and taken out in every order, every content of 0..4 bytes, any clock values, any failure to enlarge the memory",thorough=dict(defs=["VP_NO_FORMAT","K=3"],timeout=6000,bounds="three products"), **PQ),
  H("fifo_faults", unwind=9, bounds="one product, any data base operation failing, or arriving while the receiver waits", **PQ),
  H("pctl_open", unwind=9, bounds="every operation of opening the queue failing or not", **PQ))
prop("P02",
  H("queue_limits", unwind=9, bounds="one insertion or removal from a queue with any number of elements, any contents size below 2^33, any limits, any data base error", **PQ))
prop("P03",
  H("pctl_timeout", unwind=9, bounds="every clock value below 2^40 s, every interval of 0..63 s in ms", **PQ),
  H("nbspq_timeout", unwind=9, bounds="every clock value below 2^40 s, every interval of 0..63 s in ms", **NQ))
prop("Q01",
  H("nbspq_fifo", unwind=9, bounds="three messages to two queues in six schedules, any contents", **NQ),
  H("nbspq_faults", unwind=9, bounds="one message, any data base operation failing, or arriving while the receiver waits", **NQ),
  H("nbspq_limits", unwind=9, bounds="one insertion or removal from a queue of any length with any limits and any data base error", **NQ),
  H("nbspq_open", unwind=9, bounds="every operation of opening the two queues failing or not", **NQ))

prop("U01",
  H("split", "str.c", repo=["src/strsplit.c"], extra=["vp_alloc.c"], defs=["VP_ALLOC_MAX=64"], unwind=7, bounds="every text of 0..4 characters, every set of 1..2 delimiters, both ways with empty elements, any allocation failing",
    thorough=dict(defs=["N=9","VP_ALLOC_MAX=80"], unwind=12, timeout=5000, bounds="every text of 0..9 characters")),
  H("resplit", "str.c", repo=["src/strsplit.c"], extra=["vp_alloc.c"], defs=["VP_ALLOC_MAX=64"], unwind=9, bounds="every pair of texts of 0..6 characters split one after the other in the same storage"),
  H("resplit_ldm", "str.c", entry="resplit", repo=["filters/ldmfilter/nbsp2ldm/src/strsplit.c"], index="filters/ldmfilter/nbsp2ldm/src", extra=["vp_alloc.c"], defs=["VP_ALLOC_MAX=64"], unwind=9, bounds="the same for the copy of the LDM filter"),
  H("numbers", "str.c", repo=["src/stoi.c"], defs=["STOI"], unwind=14, bounds="every text of 0..12 characters"),
  H("numbers_filterlib", "str.c", entry="numbers", repo=["filters/filterlib/c/util.c"], index="filters/filterlib/c", defs=["STOI"], unwind=14, bounds="the same for the copy of the filter library"))
prop("N07",
  H("reads", "nread.c", repo=["src/nreadn.c"], unwind=8, bounds="requests of 0..5 bytes, up to 6 system calls with any result (short counts, timeouts, errors, end, hangup), 0..2 retries, an interruption at any time"),
  H("writes", "nread.c", repo=["src/nreadn.c"], unwind=8, bounds="requests of 0..5 bytes, up to 6 system calls with any result, 0..2 retries, an interruption at any time"))
prop("F01",
  H("emfilter", "emfilter.c", repo=["src/serverm.c", "src/pfilter.c", "src/nreadn.c"], unstatic=["src/serverm.c"], unwind=14, defs=["VP_OWN_STDIO", "VP_NO_FORMAT"],
    bounds="every reply of 0..12 bytes, buffers of 5 and 4 bytes, any failure to open, write or read"))
prop("F03",
  H("sfline", "sfilt.c", repo=["src/sfilter.c"], unwind=14, defs=["LINE"], unwindset=[("sfline.0",50),("putstr.0",26),("run.0",62),("vp_format.10",26)], expect_undefined=(),
    bounds="every name and path of 0..5 bytes, smallest and largest numbers, a fresh buffer or one grown before"),
)
prop("F04",
  H("allowed", "sfilt.c", repo=["src/serverf.c"], unwind=5, bounds="two clients in every condition, every outcome of the filter and of every setting"))
prop("B05",
  H("names", "names.c", repo=["src/framep.c"], unstatic=["src/framep.c"], unwind=62, unwindset=[("vp_format.10", 30)], bounds="six patterns of field lengths (shortest to longest), smallest and largest sequence numbers, paths with room for one character less than needed, just enough, more, or none"),
  H("letters", "names.c", repo=["src/framep.c"], unstatic=["src/framep.c"], unwind=26, defs=["LETTERS","VP_NO_FORMAT"], bounds="the last character of each field in turn being any letter or digit"))
prop("M01",
  H("tasks", "per.c", repo=["src/per.c"], unwind=11, defs=["PER"], bounds="three scans at arbitrary times, every period up to 10^6 s"))
prop("M02",
  H("loads", "load.c", repo=["src/load.c"], unwind=4, bounds="every load below 1024 in steps of a quarter, every threshold"),
  H("qstate", "qstate.c", repo=["src/qstate.c"], unwind=12, defs=["VP_OWN_STDIO"], bounds="0..3 queues with any lengths, every outcome of the write"))
prop("M03",
  H("counters", "stats.c", repo=["src/stats.c"], unwind=66, unwindset=[("counters.0",17),("counters.1",17),("expect.0",17),("table.0",17)], defs=["COUNTERS", "VP_OWN_STDIO"], bounds="any value of every counter (below 2000 for the ratio), one event of each kind"),
  H("frames", "stats.c", repo=["src/stats.c", "src/framep.c"], unstatic=["src/framep.c"], unwind=66, unwindset=[("expect.0",17),("table.0",17)], defs=["FRAMES", "VP_OWN_STDIO"], bounds="one frame of any verdict, sequence number and channel, from any state"),
  H("starts", "stats.c", repo=["src/stats.c", "src/framep.c"], unstatic=["src/framep.c"], unwind=66, unwindset=[("expect.0",17),("table.0",17)], defs=["FRAMES", "VP_OWN_STDIO", "VP_NO_FORMAT"], bounds="the start of a product with every outcome"))
EMW = dict(src="emwin.c", flags=["--max-field-sensitivity-array-size", "110"], const={"src/emwin.h": {"EMWIN_DATA_SIZE": "16", "EMWIN_PACKET_SIZE": "108"}}, repo=["src/emwin.c", "src/serverc.c", "src/util.c", "src/file.c"], unstatic=["src/serverc.c"], unwind=30,
    unwindset=[("writem.0", 110), ("build_emwin_packet.0", 110), ("memset.0", 110), ("memcpy.0", 82)])
prop("N06",
  H("emwin_file", defs=["VP_OWN_STDIO", "VP_NO_FORMAT"], bounds="files of 0, 1, 15, 16, 17, 32 and 40 bytes in parts of 16 bytes (scaled down from 1024), arbitrary bytes and names of 1..12 characters", **EMW),
  H("emwin_faults", defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "FAULTS"], bounds="a file of two parts of 16 bytes (scaled down), arbitrary bytes and names, each system call failing in turn", **EMW),
  H("emwin_sizes", "emwin.c", repo=["src/emwin.c", "src/file.c"], unwind=24, unwindset=[("build_emwin_packet.0", 1118)], defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "SIZES"], bounds="every file size up to 99999 parts, the real sizes of the protocol"),
  H("sum", "emwin.c", repo=["src/util.c"], unwind=18, defs=["SUM"], bounds="0..16 arbitrary bytes"))
NBS1C = {"src/nbs1.h": {"NBS1_BLOCK_SIZE": "4"}}
NFP = dict(src="pack.c", repo=["src/pack.c", "src/packfp.c", "src/packfpu.c", "src/util.c"], defs=["FP", "VP_NO_FORMAT"])
NDT = dict(src="pack.c", repo=["src/pack.c", "src/nbs1s.c", "src/nbs1r.c", "src/util.c", "src/file.c"], const=NBS1C)
prop("N01",
  H("fp_roundtrip", unwind=42, bounds="every value of the fields, four combinations of name lengths from the shortest to the longest, paths up to 4 characters", **NFP),
  H("nbs_roundtrip", defs=["N1", "VP_NO_FORMAT"], unwind=76, bounds="products of 0, 1, 3, 4, 5, 8 and 10 arbitrary bytes in blocks of 4 (scaled down from 65536), every value of the fields, the three kinds of spool", **NDT))
prop("N02",
  H("fp_unpack", unwind=50, mem=True, bounds="every content of a packet with room for a path of 2 or 5 characters, any declared size", **NFP),
  H("fp_recv", unwind=50, bounds="every content and any outcome of the reads", **NFP),
  H("infifo", "slavein.c", repo=["src/slavein/reader.c", "src/file.c"], unstatic=["src/slavein/reader.c"], unwind=40, mem=True, defs=["VP_OWN_STDIO", "VP_NO_FORMAT"], bounds="every declared size, messages of up to 12 characters for the names, any result of reading and of the numbers, a buffer of any earlier size"),
  H("nbs_recv", defs=["N2", "VP_NO_FORMAT"], unwind=76, bounds="every content and any outcome of the reads, blocks of 0..4 bytes (scaled down from 65536)", **NDT))
prop("N05",
  H("relayed", "slavenbs.c", repo=["src/slavenbs/framep.c", "src/pctl.c", "src/mfile.c"], unstatic=["src/slavenbs/framep.c"], unwind=7, mem=True, extra=["vp_stats.c"], defs=["VP_NO_FORMAT"], unwindset=[("memcpy.0",4),("strlen.0",20),("strcpy.0",20),("strncpy.0",40)],
    bounds="one block with every header value from every state of 2 masters (an inductive step: histories of any length), blocks of 0..2 bytes"),
  H("relayed_names", "slavenbsn.c", repo=["src/slavenbs/framep.c"], unstatic=["src/slavenbs/framep.c"], unwind=32, extra=["vp_stats.c"], defs=["VP_OWN_STDIO", "VP_NO_FORMAT"],
    const={"src/const.h": {"FNAME_SIZE": "8", "WMO_STATION_SIZE": "2", "WMO_NOTAWIPS_SIZE": "2", "FBASENAME_SIZE": "11"}, "src/common.h": {"WMO_ID_SIZE": "2", "WMO_AWIPS_SIZE": "2"}},
    bounds="every name of up to 11 characters (lengths scaled down: 2 per field) of letters, digits, separators and slashes"))
MC = dict(cflags=["-include", "src/util.h"], repo=["tools/nbspmcast/nbspmcast.c", "tools/nbspmcast/sbnpack/sbnpack.c", "tools/nbspmcast/sbnpack/fill.c", "tools/nbspmcast/sbnpack/sbn.c", "tools/nbspmcast/sbnpack/file.c", "src/util.c", "src/sbn.c"],
  unstatic=["tools/nbspmcast/nbspmcast.c"], inc=("tools/nbspmcast", "tools/nbspmcast/sbnpack", "filters/filterlib/c", ".", "src"), log=False, mem=True, extra=["h/mcastr.c"])
prop("T01",
  *[H("mcast_files%d" % k, "mcast.c", defs=["ENTRY=mcast_files%d" % k, "ONLY=" + ("&& k == 7" if k == 4 else "&& k/2 == %d" % k)] + (["FAIL"] if k == 4 else []), unwind=9, unwindset=[("vp_recv.0", 102),("unpack_fl_header.0", 18),("vp_nd_bytes.0", 110), ("fill_flh.0", 16), ("memcpy.0", 110), ("memset.0", 110), ("read.0", 110)],
    const={"tools/nbspmcast/sbnpack/sbnpack.h": {"DATA_BLOCK_SIZE": "28", "FRAME_SIZE_MAX": "96"}, "src/sbn.h": {"SBN_FRAME_SIZE": "100"}, "src/common.h": {"MAX_FRDATA_SIZE": "100"}}, flags=["--max-field-sensitivity-array-size", "110"],
    bounds="two files one after the other, 8 pairs of sizes from 0 to 85 bytes (the remainders next to the boundaries of 1 to 4 frames), every content, " + ("any of the first sends failing" if k == 4 else "all sends working") + "; frames scaled down from 4000 to 28 bytes", **MC) for k in range(5)],
  H("mcast_params", "mcast.c", defs=["PARAMS"], unwind=8, unwindset=[("vp_recv.0", 102)], bounds="every file size up to 2^31, real frame sizes", **MC),
  H("mcast_headers", "mcast.c", defs=["HEADERS"], unwind=20, unwindset=[("vp_recv.0", 102), ("memset.0", 120)], bounds="every frame number, number of frames, size of the last block and sequence numbers, real frame sizes", **MC))
DC = "filters/filterlib/c/dcnids/"
NID = dict(src="nids.c", inc=("filters/filterlib/c/dcnids", "filters/filterlib/c", ".", "src"), log=False)
prop("T03",
  H("nids_header", repo=[DC + "dcnids_header.c", DC + "dcnids_extract.c", "filters/filterlib/c/misc.c"], defs=["HEADER"], unwind=8, unwindset=[("vp_nd_bytes.0", 152)], flags=["--max-field-sensitivity-array-size", "160"], bounds="every header content, real sizes", **NID),
  H("nids_read", repo=[DC + "dcnids_header.c", DC + "dcnids_extract.c", "filters/filterlib/c/misc.c"], const={DC + "dcnids_header.h": {"NIDS_HEADER_SIZE": "8"}}, defs=["READ"], unwind=8, unwindset=[("vp_nd_bytes.0", 80), ("read.0", 42), ("run.0", 42)], flags=["--max-field-sensitivity-array-size", "200"], bounds="every content of the header (scaled down from 150 to 38 bytes), with or without a control header, one more byte, or a Gempak header before it; each read failing, empty or short", **NID),
  H("nids_data", repo=[DC + "nbspradgis.c", DC + "dcnids_extract.c"], unstatic=[DC + "nbspradgis.c"], mem=True, defs=["VP_OWN_STDIO"], unwind=8, unwindset=[("vp_nd_bytes.0", 38)], bounds="data of 0, 1, 2, 29, 30 and 36 arbitrary bytes, as they are or packed (0, 29 or 30 bytes), any failure to unpack", **dict(NID, src="nidsd.c")))
prop("T04",
  H("bbox", repo=[DC + "dcnids_transform.c"], defs=["BBOX"], unwind=5, bounds="1..2 polygons with every coordinate", **NID),
  H("shapes", repo=[DC + "dcnids_shp.c"], mem=True, defs=["SHAPES"], unwind=9, unwindset=[("write.0", 373)], flags=["--max-field-sensitivity-array-size", "600"], bounds="0..2 polygons with coordinates of whole degrees", **NID),
  H("shapes_faults", entry="shapes", repo=[DC + "dcnids_shp.c"], mem=True, defs=["SHAPES", "FAULTS"], unwind=9, unwindset=[("write.0", 237)], flags=["--max-field-sensitivity-array-size", "600"], bounds="every memory allocation, file creation and write failing or incomplete in turn", **NID))
NIR = dict(NID, src="nidsr.c")
prop("T05",
  H("levels", repo=[DC + "dcnids_decode_radials_af1f.c", DC + "dcnids_extract.c"], unstatic=[DC + "dcnids_decode_radials_af1f.c"], mem=True, defs=["RADIALS", "AF1F", "ONLY="], unwind=17, bounds="every code, product and mode", **NIR),
  *[H("af1f%d" % k, entry="af1f", repo=[DC + "dcnids_decode_radials_af1f.c", DC + "dcnids_extract.c"], mem=True, defs=["RADIALS", "AF1F", "FIRST=%d" % k, "ONLY="], unwind=17, unwindset=[("run.0", 31), ("run.6", 50)], bounds="two radials with 3 byte pairs, 5 patterns of run lengths and codes, all the products and modes, any filter", **NIR) for k in (0, 9)],
  H("af1f_short", repo=[DC + "dcnids_decode_radials_af1f.c", DC + "dcnids_extract.c"], mem=True, defs=["RADIALS", "AF1F", "ONLY=", "FAULTS"], unwind=17, unwindset=[("run.0", 31), ("run.4", 50)], bounds="data cut off at 8 places", **NIR),
  *[H("digital%d" % k, entry="digital", repo=[DC + "dcnids_decode_digital_radials_16.c", DC + "dcnids_extract.c"], mem=True, defs=["RADIALS", "DIGITAL", "ONLY=" + ("&& w == 0" if k else ""), "FILT=%d" % k], unwind=17, unwindset=[("run.0", 31), ("run.4", 50)], bounds="two radials of 3 bytes of any values, 4 geometries, all the products and modes, " + ("any filter" if k else "no filter"), **NIR) for k in (0, 1)],
  H("digital_short", repo=[DC + "dcnids_decode_digital_radials_16.c", DC + "dcnids_extract.c"], mem=True, defs=["RADIALS", "DIGITAL", "ONLY=", "FAULTS"], unwind=17, unwindset=[("run.0", 31), ("run.4", 50)], bounds="data cut off at 6 places", **NIR))
FIL = dict(src="fltr.c", repo=["src/filters.c", "src/util.c"], unstatic=["src/filters.c"])
prop("F02",
  *[H("filterlist%d" % k, entry="filterlist", defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "LIST", "ONLY=&& k %% 3 == %d" % k] + ([] if k else ["NOREACH"]), unwind=9, unwindset=[("filterlist.0",244)], bounds="every list of 5 characters, position by position a separator, a letter that may repeat or one that does not (part %d of 3)" % (k + 1), **FIL) for k in range(3)],
  H("filterlist_faults", entry="filterlist", defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "LIST", "FAULTS", "ONLY=&& (k == 182 || k == 190 || k == 100)"], unwind=9, unwindset=[("filterlist.1",244),("filterlist.0",9)], bounds="three lists, any memory allocation failing", **FIL),
  *[H("sendall%d" % k, entry="sendall", defs=["VP_OWN_STDIO", "SEND", "MSPOOL=%d" % k], unwind=32, bounds="two filters of either kind, each open or closed, any result of opening and writing; " + ("in-memory spool" if k else "file spool"), **FIL) for k in (0, 1)],
  H("reloads", defs=["VP_OWN_STDIO", "RELOAD"], unwind=14, bounds="a fifo and a program, each open or closed, that can be opened or not, and every kind of entry in the directory", **FIL))
CON = dict(src="conn.c", repo=["src/libconnth/conn.c", "src/libconnth/ce.c"])
prop("N10",
  H("conntable", unwind=14, bounds="one addition, removal or the end, from tables of 0..3 connections of any kind in any condition (inductive step), any failure of memory, of ending the thread or of closing the queue", **CON),
  *[H("connpoll%d" % k, entry="connpoll", defs=["POLL", "ONLY=&& " + ("i >= 4" if k else "i < 4")] + (["SECOND"] if k else []), unwind=14, bounds="one turn of the server with two clients in any condition: " + ("requests of a client coming back, repeated, refused or failing" if k else "no request, a new client, the last one allowed, one too many") + "; each client silent, with data, closed, reset or hung up", **dict(CON, repo=CON["repo"] + ["src/libconnth/poll.c"])) for k in (0, 1)])
SPO = dict(src="spool.c", repo=["src/libspoolbdb/" + x for x in ("spoolbdbv.c", "spoolbdb.c", "mspoolbdb.c", "spoolslots.c")])
prop("S01",
  *[H("spoolwrite%d" % k, entry="spoolwrite", defs=["WRITE", "ONLY=&& i %% 3 == %d" % k] + ([] if k == 0 else []), unwind=9, bounds="1..3 data bases, any one being written, of any size and content; one product of any size, or making room; any failure (part %d of 3)" % (k + 1), **SPO) for k in range(3)],
  H("spoolopen", defs=["OPEN", "VP_OWN_STDIO"], unwind=17, bounds="1..3 data bases of every kind, of several sizes up to 4095 MB each; the memory, the environment or any data base failing", **SPO),
  H("spoolread", defs=["READ"], unwind=28, bounds="1..3 data bases, any one being written, each with the product, without it or failing", **SPO),
  H("spoolbuf", defs=["BUF"], unwind=10, unwindset=[("spoolbuf.1",12)], bounds="a product of 0..8 bytes, room for 0, 2 or 4, read in parts, any failure", **SPO),
  H("insertkey", "spoolm.c", repo=["src/nbspmspoolbdb.c"], unwind=28, bounds="keys of 1..10 digits, any outcome of the insertion, of making room and of reading", defs=["VP_OWN_STDIO", "VP_NO_FORMAT"]))
prop("S02",
  *[H("slots%d" % k, entry="slots", defs=["SLOT", "ONLY=&& i %% 4 == %d" % k] + (["WREACH"] if k < 3 else []), unwind=10, bounds="1..3 slots, any of them open, woken up for nothing, by a slot given back or with a failure up to three times, the product there or not (part %d of 4)" % (k + 1), **SPO) for k in range(4)])
SRV = dict(repo=["src/serverm.c", "src/appdata.c", "src/libconnth/conn.c", "src/libconnth/ce.c"], unstatic=["src/serverm.c"])
prop("N11",
  H("ident", "srv.c", defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "IDENT"], unwind=10, bounds="every message of up to 512 bytes (the first 8 arbitrary), any set of protocols served, lack of memory", **SRV),
  H("silent", "srv.c", defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "IDENT"], unwind=10, bounds="two clients, any times and limits, any set of protocols served", **SRV))
prop("N09",
  H("distribute", "srv.c", defs=["VP_OWN_STDIO", "VP_NO_FORMAT"], unwind=10, bounds="two clients of any protocols in any condition, every outcome of the filters and of each queue", **SRV),
  *[H("client_nbs%d_%d" % (k, a), "srvc.c", entry="client", repo=["src/serverc.c", "src/libconnth/ce.c"], unstatic=["src/serverc.c"], defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "PROTO=%d" % k, "R0=%d" % a, "R1=%d" % b], const={"src/nbs1.h": {"NBS1_BLOCK_SIZE": "8"}}, unwind=9, unwindset=[("client.4",3)], bounds="one product: up to two failed attempts of any kind, coming back or not each time, %d..%d retries" % (a, b)) for k, a, b in ((1, 0, 0), (1, 1, 1), (1, 2, 2), (2, 0, 2))])

prop("T06",
  *[H("nbspinsert%d" % k, "nins.c", entry="nbspinsert", repo=["tools/nbspinsert/" + x for x in ("nbspinsert.c", "io.c", "fifo.c", "nutil.c")] + ["filters/filterlib/c/util.c"], unstatic=["tools/nbspinsert/nbspinsert.c"], inc=("tools/nbspinsert", "filters/filterlib/c", ".", "src"), log=False, defs=["VP_OWN_STDIO", "VP_NO_FORMAT", "ONLY=&& l %% 2 == %d" % k, "ARGS=&& %d" % (k == 0)], unwind=19, objbits=14, bounds="a product of 0..2 parts already saved or not, messages of 20 to 1400 bytes around the size of the buffer, every system call failing or incomplete (part %d of 2)" % (k + 1)) for k in range(2)])
SLT = dict(src="slavet.c", repo=["src/slavet.c", "src/strsplit.c", "src/util.c", "src/stoi.c"], inc=("src",), log=False, unwind=92, objbits=13)
prop("N13",
  *[H("master%d_%d" % (k, m), entry="master", defs=["VP_OWN_STDIO", "ENTRY=%d" % k, "ONLY=&& i %% 4 == %d" % m] + (["NOREACH"] if k == 0 or m < 2 else []), bounds="one entry of " + ("an invalid kind" if k == 0 else "kind %d" % k) + " with 0..8 fields, with or without its host and port, options present, negative or empty, both separators (part %d of 4)" % (m + 1), **SLT) for k in range(4) for m in range(4)],
  *[H("masters_two%d" % k, entry="masters", defs=["VP_OWN_STDIO", "ONLY1=&& s / 2 == %d" % k, "ONLY2=&& 0"], bounds="two entries of every kind, with every separator, either one malformed, with and without the satellite receiver (part %d of 3)" % (k + 1), **SLT) for k in range(3)],
  H("masters_oom", entry="masters", defs=["VP_OWN_STDIO", "ONLY1=&& 0", "ONLY2="], bounds="two entries with any memory allocation failing, and lists without entries", **SLT))
