#!/usr/bin/env python3
"""The list of properties: writes ../properties.jsonl and ../MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over.split(), "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if len(title) > 80:
        raise SystemExit("title too long: " + id)
    P.append(d)

NOTEST = "No test in the baseline executes this code; "

p("B01", "A broadcast frame is accepted only when consistent, and decoded exactly",
  """A received broadcast frame is accepted only when its checksum matches and its length agrees with the lengths in its
  headers, and is otherwise rejected with the verdict that names the reason. For an accepted frame every header
  field equals the big-endian value at its place, and the control header, communications header and data that are handed on
  are adjacent pieces inside the frame (or the decompressed block) that cover the data block exactly.
  No frame content makes the reader touch memory outside the frame.""",
  "inputs", "every frame length from 0 to the maximum and every value of the header bytes",
  NOTEST + "the space of header bytes times lengths is far beyond samples, and the failures sit at rare length/offset combinations.",
  "src/sbn.c src/sbn.h", [("frame unpacking and validation", "src/sbn.c")])

p("B02", "A product's identity comes only from its own validated heading bytes",
  """The station, WMO identifier, time and AWIPS identifier given to a product are exactly the fields of the WMO heading at
  the start of its data (after the communications header), lower or upper case letters and digits only; a heading which does not conform is
  reported as not an identifiable product. The result depends on nothing but the bytes of that data block.""",
  "inputs", "every block of up to the stated number of bytes, of every length from 0",
  NOTEST + "malformed headings are rare and each needs a particular byte at a particular place or a block that ends in the middle of a field.",
  "src/sbn.c src/framep.c", [("heading parser", "src/sbn.c"), ("first frame processing", "src/framep.c")])

p("B03", "A product is complete only when every fragment arrived, in order, on its channel",
  """A broadcast product is delivered for processing as complete only if its first frame and then every further fragment, in sequence
  and of the same product and channel, were received. A product that loses a fragment or is cut off by the start of
  another one on the same channel is delivered marked incomplete, once, and frames of other channels never change it. Frames that belong to no open
  product do not alter any product, except that an abort frame discards the open product of its channel.""",
  "histories inputs", "every sequence, up to the stated length, of frames with arbitrary channel, product number, fragment number and count",
  NOTEST + "loss, duplication and interleaving of frames give a number of histories no fixed set of tests covers.",
  "src/framep.c src/pctl.c src/nbsp.c", [("frame processor", "src/framep.c"), ("active product table", "src/pctl.c")])

p("B04", "The content of a product is the concatenation of its fragments",
  """The saved content of a product is byte for byte the data of its fragments in the order received, whatever their sizes and however often the
  buffer has to grow. Fragments kept apart are handed back one by one exactly as stored, and the retained size always equals the number of bytes stored.
  When the memory cannot be obtained the append fails without damaging what was stored.""",
  "inputs fault_sequences", "every sequence of up to the stated number of fragments with any sizes and contents within the bounds, and any allocation failing",
  NOTEST + "growth boundaries and allocation failures are not exercised by any sample.",
  "src/mfile.c src/nbsp.c", [("memory file", "src/mfile.c"), ("fragment save", "src/nbsp.c")])

p("B05", "Product names are well formed, determined by the identity, and stay in the spool",
  """The name of a stored product is station_wmoid[-awipsid or +internal code].time_sequence, in lower case, and is
  determined by the product's identity and sequence alone. Its path lies inside the spool directory, under the station, and a name or path that does not fit
  its buffer is reported instead of being truncated.""",
  "inputs configurations", "every identity accepted from the broadcast, any sequence number, category and code, and any spool directory length within the bound",
  NOTEST + "names overlap or overflow only for particular lengths and digits.",
  "src/nbsp.c src/nbsp.h src/file.c src/pctl.c", [("name construction", "src/nbsp.c"), ("path construction", "src/file.c")])

p("B06", "A retransmitted product is stored once",
  """While tracking is in use, a product flagged as a retransmission is discarded if and only if its original sequence number is
  recorded as received in good condition in the current or the previous retention period; one whose original was missed or damaged is stored. A product becomes
  recorded as good only after it has been stored completely, or when it is itself discarded as the repetition of a good one; an incomplete one is recorded as failed. When tracking is disabled,
  or its data base fails, the configured default decides.""",
  "histories inputs fault_sequences", "every history of the stated length of products with arbitrary sequence numbers and run ids, clock values and database errors",
  NOTEST + "the outcome depends on the history of previous products, on clock values and on database failures.",
  "src/rtxdb.c src/nbsp.c src/pctl.c", [("retransmission data base", "src/rtxdb.c"), ("element processing", "src/nbsp.c")])

p("P01", "Queued products come out once, in order, as they went in",
  """Every product accepted by the processing queue is taken out exactly once, in the order accepted, with all its
  metadata, name and in-memory content unchanged. Two products never share a queue key, even when the clock stands still or steps back.
  An element that cannot be stored in the queue is reported to the producer and is never delivered as good.""",
  "histories inputs fault_sequences", "every sequence of the stated length of insertions and removals, arbitrary element contents, clock values and database errors",
  NOTEST + "clock steps and database faults are not produced by samples.",
  "src/pctldb.c src/pctlmfdb.c", [("processing queue", "src/pctldb.c"), ("in-memory content store", "src/pctlmfdb.c")])

p("P02", "Queue limits and memory budgets hold and the accounting never drifts",
  """The processing queue never admits a product beyond its configured hard limit of elements, the in-memory content never passes its configured budget, and when
  a limit is hit the product is refused with an error rather than partly stored. After each successful insertion and removal the counters equal the true number of
  elements and bytes held.""",
  "histories configurations fault_sequences", "every configured limit, any initial counters consistent with the contents, any one operation and any database error",
  NOTEST + "limits are reached only under sustained load.",
  "src/pctldb.c src/pctlmfdb.c src/nbspq.c", [("limits", "src/pctldb.c"), ("memory accounting", "src/pctlmfdb.c")])

p("P03", "Every timed wait is handed a valid deadline no earlier than asked",
  """Whenever a thread waits with a time limit on one of the queues, the deadline it passes is a normalised instant (nanoseconds below one
  second) that lies exactly the configured interval after the current time. A clock failure is reported, not waited on.""",
  "inputs configurations", "every current time and every configured interval within the stated range",
  NOTEST + "an invalid deadline arises only for particular sub-second clock values.",
  "src/pctldb.c src/libqdb/qdb.c", [("queue timeout", "src/pctldb.c"), ("filter queue timeout", "src/libqdb/qdb.c")])

p("P04", "A product is exported to exactly the consumers whose patterns it matches",
  """A stored product is handed to the filters and to the servers exactly when that export is enabled and the product is in good
  condition and its name is not excluded by the configured patterns. Products that are not stored, or are
  retransmissions of good products, are exported to none; a failure of one export does not prevent the other.""",
  "inputs configurations fault_sequences", "every combination of export options, product conditions, pattern outcomes and export failures",
  NOTEST + "the combinations of options, conditions and failures are not tested.",
  "src/nbsp.c src/access.c src/slave.c", [("export", "src/nbsp.c")])

p("P05", "What is stored for a product does not depend on the kind of spool",
  """For the same sequence of fragments and the same options, each kind of spool stores the same bytes for the product: with the communications header removed if
  so configured, and complete otherwise. A product consisting of nothing but the communications header and one
  whose header arrives alone are stored the same way by all, and a write error is always reported.""",
  "inputs configurations fault_sequences", "every fragment size within the bound, each spool kind, header option and write outcome",
  NOTEST + "the spool kinds are never compared.",
  "src/nbsp.c src/mfile.c src/file.c src/efile.c", [("product save", "src/nbsp.c"), ("copy", "src/file.c")])

p("S01", "The data-base spool keeps the newest products and says when one is gone",
  """A product inserted in the data-base spool is returned unchanged by a read with its key as long as the data base of the ring it was written in has not been reused; otherwise the read reports not found.
  When the present data base has no room, only the oldest one is emptied and used next; no data base grows over its configured size, a product that can never fit is refused without disturbing the others, and room is made after a memory error step by step and no more than needed.
  Opening the spool creates every data base with the sizes asked for, or reports the failure and leaves nothing behind.""",
  "histories inputs fault_sequences", "one insertion, read, emptying, opening or closing from every state of a ring of up to 3 data bases (an inductive step), every size, and every outcome of the data base and of the memory",
  "The baseline runs three write/read programs with one fixed history each; rotation, reuse, large products and faults are not reached.",
  "src/libspoolbdb/spoolbdbv.c src/libspoolbdb/spoolbdb.c src/libspoolbdb/mspoolbdb.c src/nbspmspoolbdb.c", [("ring of data bases", "src/libspoolbdb/spoolbdbv.c"), ("buffers", "src/libspoolbdb/spoolbdb.c"), ("recovery", "src/nbspmspoolbdb.c")])

p("S02", "Readers of the data-base spool never disturb each other",
  """Each reader that opens a product of the data-base spool gets a slot of its own and keeps the product and its reading position until it gives the slot back, whatever the other readers do.
  While all the slots are in use a reader waits, and giving one back wakes up who waits; when the product is not there, or anything fails, no slot is left in use and the outcome is reported.""",
  "histories schedules fault_sequences", "one opening or closing from every state of up to 3 slots, every sequence of wake ups, and every outcome of the data base and the locks",
  "The programs of the baseline have only one reader.",
  "src/libspoolbdb/spoolslots.c src/libspoolbdb/mspoolbdb.c", [("slots", "src/libspoolbdb/spoolslots.c")])

p("Q01", "The filter and server queues deliver in order and shed load only above limits",
  """The queues toward filters and servers deliver messages in the order they were accepted, each once and unchanged. A message is refused only when the queue
  is above its configured limit, the refusal is reported, and the counters never drift from the true queue length.""",
  "histories configurations fault_sequences", "every history of the stated length, every limit, every database status",
  NOTEST + "limits and faults are reached only under load.",
  "src/nbspq.c src/libqdb/qdb.c", [("queue", "src/libqdb/qdb.c"), ("daemon queues", "src/nbspq.c")])

p("N01", "The relay packet formats round trip",
  """Unpacking a packet produced by the packer yields exactly the values packed, for every frame that can be received and for every product
  name; the packed length is the length sent, and packing never writes past its buffer.""",
  "inputs", "every value of every field and every name up to its maximum length",
  NOTEST + "round trips are not tested at the extremes of any field.",
  "src/pack.c src/packfp.c src/packfpu.c src/slavein/reader.c", [("packet packing", "src/pack.c src/packfp.c src/packfpu.c")])

p("N02", "A received relay packet is used only if its envelope and sizes are consistent",
  """A packet read from the network is accepted only if its identification, type and lengths agree with the format, and everything used from it was received in that
  packet. A malformed or truncated packet is reported as an error (or skipped) and never makes the receiver read or write outside its
  buffers or use bytes of a previous packet.""",
  "inputs fault_sequences", "every byte of the packet headers, every length field, and every way a read can end early, fail or time out",
  NOTEST + "the length fields have 2^32 values of which only a few sit at a boundary.",
  "src/nbs1r.c src/packfp.c src/slavein/reader.c src/slavenbs/framep.c", [("packet reception", "src/nbs1r.c src/packfp.c")])

p("N05", "A slave rebuilds exactly the product its master sent, or discards it",
  """A slave hands on a product only when it has received all of its blocks, in order, from one transmission; its content and identity are those sent by the master. A missing,
  repeated or out of order block, or one which does not fit, makes that product be discarded and never changes another product.""",
  "histories inputs", "every sequence of the stated length of blocks with arbitrary headers",
  NOTEST + "the histories of losses and interleavings are not sampled.",
  "src/slavenbs/framep.c src/slavein/framep.c src/slavet.c", [("slave assembly", "src/slavenbs/framep.c"), ("infeed assembly", "src/slavein/framep.c")])

p("N06", "EMWIN packets served carry exactly the file, with consistent headers",
  """The packets made from a file have the size, preamble, padding and scrambling of the protocol; the header names the file, the part, the number of parts and the sum of the data bytes, and
  the parts in order give exactly the bytes of the file, the last one padded with zeros.""",
  "inputs", "every file size, part number and name within the bound",
  NOTEST + "the sizes around a whole number of parts and the checksum of arbitrary contents are not tested.",
  "src/emwin.c", [("EMWIN packet", "src/emwin.c")])

p("N07", "Reads and writes transfer the whole request or report why not",
  """The blocking and timed transfer helpers return the full count only when every byte was transferred once and in order, whatever partial results, interruptions
  or delays the system produces; otherwise they return the count transferred or an error with the documented meaning. They never exceed the buffer.""",
  "fault_sequences inputs", "every sequence of up to the stated number of system call results (short counts, interrupts, would-block, errors, end of file, timeouts)",
  NOTEST + "short transfers and interrupts do not occur in tests over files.",
  "src/nreadn.c src/libconnth src/efile.c", [("timed read", "src/nreadn.c")])

p("N09", "Network clients receive every product they subscribe to, whole and in order",
  """A product queued for distribution is given to each connected client whose subscription matches it and to no other; each client is sent whole packets in order. A slow
  or failing client is limited by its own queue and never affects another.""",
  "histories configurations fault_sequences", "every set of up to the stated number of clients, options and outcomes of each send",
  NOTEST + "no network client takes part in the tests.",
  "src/serverm.c src/serverc.c src/libconnth/ce.c", [("distribution", "src/serverm.c"), ("client threads", "src/serverc.c")])

p("N10", "The client connection table never mixes up, leaks or exceeds its entries",
  """Each accepted connection occupies one entry until it is closed and removed; entries never exceed the configured maximum, a removed connection is not used again, and the
  number of clients reported equals the number of entries in use.""",
  "histories fault_sequences", "every history of the stated length of adds, removals and allocation failures",
  NOTEST + "connection churn is not tested.",
  "src/libconnth/conn.c src/libconnth/poll.c", [("connection table", "src/libconnth/conn.c")])

p("N11", "The client identification protocol accepts only well formed requests",
  """A connecting client's identification is accepted only if it has the documented form, and selects exactly the protocol, version and options it names; anything else is refused.
  No request makes the server read or write outside the request buffer.""",
  "inputs", "every request of up to the stated length",
  NOTEST + "malformed identification requests are not sampled.",
  "src/serverm.c src/serverc.c src/libconnth", [("client options", "src/serverm.c")])

p("N13", "The list of master servers and its options are parsed faithfully",
  """Every well formed entry of the configured list of master servers gives one server in the table with the kind, host or fifo, port and options written there, and the defaults where they are omitted or empty; entries can be separated by any of the separators, repeated or not.
  A list with a malformed entry (unknown kind, no host, too few or too many fields) or without entries is refused as a whole, also when memory is lacking, with a report and nothing left behind. Each server that sends products gets a queue index of its own, after those of the satellite channels when these are in use.""",
  "inputs configurations fault_sequences", "every entry of 0..8 fields of each kind, lists of two entries with every separator, any memory allocation failing",
  NOTEST + "only a syntactic sample could be tested.",
  "src/slavet.c src/strsplit.c", [("master server table", "src/slavet.c")])

p("F01", "The answer of the EMWIN server filter is used only when complete",
  """An EMWIN file is offered to the network clients under exactly the name replied by the configured filter, if the reply arrived complete and fits, and is not offered when the
  filter excludes it. A reply that is missing, late, truncated, malformed or too long is an error, the filter is then closed so that a late reply is never taken as that for another file, and
  no reply makes the daemon use memory outside its buffers.""",
  "inputs fault_sequences", "every reply of up to the stated length and every failure to start, write to or read from the filter",
  NOTEST + "malformed or late replies are not tested.",
  "src/serverm.c src/pfilter.c src/nreadn.c", [("filter of the server", "src/serverm.c"), ("filter reply", "src/pfilter.c")])

p("F02", "Each product notification reaches every filter whole, or the filter is marked",
  """The notification line for a product is written whole to each configured filter, in the order configured; a filter that cannot be written is reported
  and retried as documented and never blocks the others. Filter lists of any length within the configured format are parsed into exactly the filters they name.""",
  "inputs configurations fault_sequences", "every list of up to the stated length and every result of each write",
  NOTEST + "filter failures are not injected.",
  "src/filters.c", [("filters", "src/filters.c")])

p("F03", "The line given to the server filter is complete and determined by the product",
  """The line written for a product to the server filter contains exactly the fields of the product in the documented order, whatever their values, and
  grows its buffer as required.""",
  "inputs", "every value of the fields and names up to their maximum lengths",
  NOTEST + "buffer growth occurs only with particular lengths.",
  "src/sfilter.c", [("server filter input", "src/sfilter.c")])

p("F04", "Network clients are admitted as the server filter decides",
  """A client is admitted or denied by the setting for its name if there is one, else by that for its address, else by the default of the filter, else by the built-in default.
  Only connected clients whose admission is asked for are decided, each on its own, and a failure of the filter is an error rather than an admission.""",
  "configurations inputs", "every outcome of every setting, with two clients in every condition",
  NOTEST + "no test configures a server filter.",
  "src/serverf.c", [("client admission", "src/serverf.c")])

p("M01", "Periodic tasks run once per period",
  """Every periodic task runs in a scan if its time has come and not before, once per scan at the most, and its time is then one period later than before.
  The user's scheduler runs once in each new minute, and a reload request reaches every kind of filter.""",
  "inputs histories", "every clock value and period within the range",
  NOTEST + "clock jumps are not tested.",
  "src/per.c", [("scheduler", "src/per.c")])

p("M02", "Flow control flags follow the load, and the queue state report is true",
  """The load flags are determined by the present load average, the retransmission rate and the configured thresholds only: soft or hard as the thresholds
  are reached, retransmissions refused only under load. The record reported on the queues gives, for the products queue and each of the other queues, the number of queued
  elements and its maximum, or zero for queues not in use, and a reader that went away is noticed.""",
  "inputs configurations histories", "every load, threshold and queue length",
  NOTEST + "loads are not produced in tests.",
  "src/load.c src/qstate.c", [("load", "src/load.c"), ("queue state", "src/qstate.c")])

p("M03", "Reception statistics count every frame and product exactly once",
  """Every frame and product event (received, missed, retransmitted, ignored, recovered, bad, aborted) adds one to the counters it concerns and to no other, also when a
  counter wraps. A jump is counted exactly when the sequence number of a channel advances by more than one, and the retransmission index is the share of retransmitted products
  in the period.""",
  "histories inputs", "every value of every counter and every frame, from any state",
  NOTEST + "wrap-around is never reached in a test.",
  "src/stats.c src/framep.c", [("statistics", "src/stats.c"), ("frame processing", "src/framep.c")])

p("C01", "Each configuration setting controls the one behaviour it names",
  """Every documented configuration name assigns exactly the setting it names and no other, keeps the value given, and leaves the documented default when absent.""",
  "configurations inputs", "every setting and every value of its type",
  NOTEST + "no test reads a daemon configuration file.",
  "src/conf.c.in src/conf.awk src/libtclconf", [("configuration table", "src/conf.c.in")])

p("C02", "An invalid configuration is refused and a valid one is accepted",
  """The daemon starts only with a configuration in which every numeric setting is within its documented range and every name required by the chosen mode is present;
  otherwise it names the offending setting and refuses.""",
  "configurations", "every value of every setting",
  NOTEST + "no test reads a daemon configuration file.",
  "src/conf.c.in", [("validation", "src/conf.c.in")])

p("U01", "Lists and numbers in configuration text are parsed exactly",
  """Splitting a configured list yields exactly its elements in order for every input and delimiter set, also when the storage of an earlier list is reused or memory runs out (then an error).
  A number is accepted only if the whole text, after optional blanks and sign, is a decimal number within the range of the result, and then the result is its value.""",
  "inputs", "every string of up to the stated length",
  NOTEST + "overflows and odd separators are rare inputs.",
  "src/strsplit.c src/stoi.c filters/filterlib/c/util.c", [("list splitting", "src/strsplit.c"), ("number parsing", "src/stoi.c")])

p("T01", "Splitting a product into broadcast frames and rejoining gives it back",
  """The frames made from a file carry, in order, exactly the bytes of the file, consistent headers and checksums, and are accepted by the receiver as one complete product for every file size in range.""",
  "inputs", "every file size in the range, in particular around multiples of the frame size",
  NOTEST + "multiples of the frame size are rare.",
  "tools/nbspmcast/sbnpack/sbnpack.c", [("frame maker", "tools/nbspmcast")])

p("T03", "Radar product headers are decoded exactly and only when present",
  """The radar product decoder reports exactly the header values at their documented places, extracts the documented number of bytes, and rejects a file too short for
  what it declares; no file content makes it read outside the file.""",
  "inputs", "every header byte and every file length within the bound",
  "The baseline does not run the radar tools on malformed products.",
  "filters/filterlib/c/dcnids", [("header decoder", "filters/filterlib/c/dcnids/dcnids_header.c")])

p("T04", "Radar shape files describe exactly the polygons of the map",
  """The bounding box computed for a set of polygons is the smallest box which contains all their vertices. The shape file and its index have one record for each polygon, in order,
  with its vertices, its own box and consistent lengths and offsets; a file which could not be written completely is reported.""",
  "inputs", "every map of up to the stated number of polygons with arbitrary coordinates",
  NOTEST + "only a fixed product could be tested.",
  "filters/filterlib/c/dcnids", [("bounding box", "filters/filterlib/c/dcnids/dcnids_transform.c"), ("shape file writer", "filters/filterlib/c/dcnids/dcnids_shp.c")])

p("T05", "Radar radials decode into exactly the cells and values encoded",
  """Decoding the run-length packed or digital radials of a product yields, in order, for each range cell of each run the polygons which cover it, with the value encoded and its documented level, and
  nothing else; cells outside of the requested levels are left out, and a product which is shorter than its radials is rejected without reading beyond its data.""",
  "inputs", "every set of radials of up to the stated number of bytes",
  NOTEST + "inconsistent lengths are rare.",
  "filters/filterlib/c/dcnids", [("radial decoder", "filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c")])

p("T06", "The insert tool stores the whole product atomically and notifies in order",
  """The insert tool writes the whole input under its final name, with nothing of an older file left, or removes it and reports the error. Only a product that was saved whole is notified; the notification names exactly that product, with its size, and is sent with the fifo locked so that the messages of concurrent inserters are never mixed.
  Values out of their range are refused before anything is done.""",
  "inputs fault_sequences schedules", "every product size within the bound and every system call failure",
  "Two fixed messages and one lock order are tested.",
  "tools/nbspinsert/nbspinsert.c", [("insert", "tools/nbspinsert/nbspinsert.c")])

def main():
    import registry
    os.chdir(os.path.dirname(HERE))
    with open("properties.jsonl", "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    na = registry.NOT_APPLICABLE if hasattr(registry, "NOT_APPLICABLE") else {}
    checks, nal = [], []
    for d in P:
        i = d["id"]
        if i in registry.PROPS:
            checks.append({"property": i,
                "quick_cmd": "python3 vp/runner.py check %s --tier quick" % i,
                "thorough_cmd": "python3 vp/runner.py check %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "bounded symbolic execution of the real C functions (goto-cc/CBMC 6.11, SAT back end cadical) with unwinding assertions and native replay of every counterexample",
                "level": "model_checking",
                "level_note": registry.PROPS[i].get("note") or "bounded: " + "; ".join(h.bounds for h in registry.PROPS[i]["harnesses"] if h.bounds)})
        else:
            nal.append({"property": i, "reason": na.get(i, "no check yet")})
    m = {"version": 1, "setup_cmd": "sh vp/setup.sh", "checks": checks, "not_applicable": nal}
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(nal), "not")
if __name__ == "__main__":
    main()
