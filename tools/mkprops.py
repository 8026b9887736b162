#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("W01","Positioned buffer writes are exact and bounded",
  "Writing n bytes (from memory not overlapping the buffer) at an offset of a fixed-size buffer either stores exactly those n bytes at [offset, offset+n), leaves every other byte unchanged and returns offset+n, or - exactly when offset is negative or the range does not lie inside the buffer - returns an error, changes nothing and does not crash; the panicking variants panic in exactly the cases where the plain variants fail.",
  ["inputs"],"every buffer content and length, every data length, every offset (negative and near the integer limits included) and every writer method",
  "Tests write one or two values at offset 0 of small buffers; off-by-one, aliasing and overflow behaviour at arbitrary offsets and lengths is never sampled.",
  ["bytewriter/bytewriter.go"],[("bounds test and byte copy","ByteWriter.Write"),("error to panic mapping","ByteWriter.MustWrite*")],observe="return values, Bytes()")
p("W02","Typed writes are little-endian and the dumper decodes them back",
  "Every 32-bit or 64-bit integer or floating point value written with a typed (or generic) writer method occupies 4 or 8 bytes in little-endian order and a string occupies exactly its bytes, and the returned position is the offset plus that size; decoding the stored slot with the dumper's value decoder for the matching metric type yields the original value.",
  ["inputs"],"every value of every supported type, every offset that fits",
  "Tests check a few integers; the round trip between the writer and the independent decoder in the dump package is not tested over the value domain.",
  ["bytewriter/bytewriter.go","mmvdump/mmvdump.go"],[("encode","ByteWriter.WriteVal and typed wrappers"),("decode","mmvdump.FixedVal")])
p("M01","Value/type compatibility is exact and stored values are lossless",
  "A value is accepted for a metric type exactly when it is a string of at most 255 bytes for the string type, a value of the identically sized Go type, a native int or uint whose number is representable in that integer type, or a float64 for the double type or - when it is finite and within the float32 range - for the float type; the value stored for an accepted value has exactly the metric type's Go type and the same number (rounded to float32 for the float type).",
  ["inputs"],"every dynamic type and value passed to any metric constructor or setter, every metric type (also undefined ones)",
  "Tests sample a handful of values per type; boundary values, undefined metric types and NaN/Inf are not covered.",
  ["metrics.go"],[("admission","MetricType.IsCompatible"),("conversion","MetricType.resolve")])
p("M02","Singleton metrics: set is all-or-nothing and read-back exact",
  "After a successful set of a singleton metric, reading it returns the (type-converted) value that was set, and if the metric is being exported that same value has been passed to its exported slot; a set that reports an error leaves the metric's value unchanged, and no other attribute of the metric changes.",
  ["inputs","histories","fault_sequences"],"every metric type, old value and new value, mapped or not, and every outcome of the exported write",
  "Tests set one or two compatible values; the failing-write path and the equal-value path are not exercised for every type.",
  ["metrics.go"],[("set","pcpSingletonMetric.set"),("constructor","NewPCPSingletonMetric")],state="value and update hook of the metric",observe="Val, Set, exported slot")
p("M03","Counters never go backwards",
  "The value of a counter (single or per instance) never decreases under any sequence of set, increment and bump operations: a smaller set, a negative increment, or an increment that would exceed the largest int64 is refused with an error and leaves the value unchanged, while every accepted increment adds exactly its amount.",
  ["inputs","histories"],"every current value, every argument (extremes included), every operation of counters and counter vectors",
  "Tests increment small numbers; arithmetic at the int64 boundary and per-instance refusal are never sampled.",
  ["metrics.go"],[("set/inc","PCPCounter"),("set/inc per instance","PCPCounterVector")],observe="Val")
p("M04","Gauges add, subtract and set exactly",
  "A gauge (single or per instance) reads back exactly the last value set, incrementing or decrementing by x changes the value to the IEEE double sum or difference of the previous value and x, and every operation on one instance of a gauge vector leaves the other instances unchanged.",
  ["inputs","histories"],"every double including infinities, NaN and signed zeros as far as observable by ==",
  "Tests use a few small numbers.",
  ["metrics.go"],[("set/inc/dec","PCPGauge"),("per instance","PCPGaugeVector")])
p("M05","Timer accounting follows its start/stop state machine",
  "A timer can be started only when stopped, and stopped only when started; a successful stop adds exactly the elapsed time since the matching start, expressed in the timer's unit, to the accumulated value and returns the new total, and a reset is refused while running and otherwise sets the total to zero.",
  ["inputs","histories"],"every sequence of start, stop and reset, every elapsed duration and each of the six units",
  "The test runs one start/stop with a tolerance; unit scaling for other units and misuse sequences are not sampled.",
  ["metrics.go"],[("state machine","PCPTimer.Start/Stop/Reset")],state="started flag, start instant, accumulated value")
p("M06","Instance metrics isolate instances and match their domain exactly",
  "An instance metric can be built only when a compatible value is supplied for exactly the instances of its instance domain; reading or setting an unknown instance is an error that changes nothing; a successful set changes exactly the addressed instance (and passes the value to that instance's exported slot), leaving all others unchanged.",
  ["inputs","histories"],"every instance domain, value map, instance name and value",
  "Tests use two or three instances and only well-formed maps.",
  ["metrics.go","instance_domain.go"],[("construction","newpcpInstanceMetric"),("read/write","pcpInstanceMetric.valInstance/setInstance")])
p("M07","Histogram statistics track the recorded data",
  "After every successful record, the exported minimum, maximum, mean, standard deviation and variance of a histogram equal those of the underlying recorder (variance being the square of the deviation); a refused record changes nothing; construction refuses low > high and clamps the bounds to [0, 3600000000] and the precision to 1 to 5 significant figures, the clamped bounds are reported as lowest and highest recordable value (a lowest bound of 0 as 1, since the recorder resolves values from 1 up), and percentiles and buckets are those of the recorder.",
  ["inputs","histories"],"every bound and precision argument, every record sequence",
  "The test records a few values in one configuration.",
  ["metrics.go"],[("sync of statistics","PCPHistogram.update"),("clamping","normalize, NewPCPHistogram"),("bounds","PCPHistogram.High/Low")])
p("M08","Unit composition encodes the requested dimensions and scales",
  "Composing a unit with space, time or count at dimension d in [-8,7] yields a 32-bit code whose corresponding dimension field is exactly d and whose scale field is exactly that unit's scale, leaving the other two components as they were, and any other d panics (as does adding to a plain space, time or count unit another component of its own kind); the decoders in both packages recover dimensions and scales from the code, and the plain units encode themselves at dimension one.",
  ["inputs"],"every dimension, every scale, every order of composition including replacing an existing component",
  "Tests compose three units at dimensions 1 and -1 only.",
  ["metrics.go","mmvdump/pcp.go"],[("encode","metricUnit.Space/Time/Count"),("decode","metricUnit.*Dim/*Scale, mmvdump.Unit.*")])
p("M09","Metric operations are atomic under their lock",
  "Every read or write of a metric's mutable state by its public operations happens while holding that metric's own lock (exclusively when writing), each read-modify-write operation runs under one uninterrupted exclusive acquisition, and the lock is released on every return and panic path.",
  ["schedules"],"every interleaving of the public operations on one metric object",
  "Tests are sequential; a lost lock shows only under particular interleavings.",
  ["metrics.go"],[("locking","public methods of PCPSingletonMetric, PCPCounter, PCPGauge, PCPTimer, PCPInstanceMetric, PCPCounterVector, PCPGaugeVector, PCPHistogram")])
p("M10","Construction validates and records metadata exactly",
  "Creating a metric or instance domain refuses an empty metric or domain name, a metric name, instance name or description of more than 255 bytes, and more than two descriptions, and otherwise the object reports exactly the given name, type, semantics, unit and texts; identifiers are the 32-bit FNV-1a hash of the name truncated to the low 10 (metric), 12 (cluster), 22 (domain) or all 32 (instance) bits.",
  ["inputs"],"every name, text and instance list",
  "Tests construct a few short names.",
  ["metrics.go","instance_domain.go","instance.go","speed.go"],[("metric metadata","newpcpMetricDesc"),("domain metadata","NewPCPInstanceDomain"),("ids","hash")])
p("R01","Registry counts equal its contents",
  "At any point outside an operation, the registry's reported counts of metrics, domains, instances, values and text slots equal the numbers obtained by adding up its registered metrics and domains.",
  ["inputs","histories"],"every sequence of successful and failing additions of any metric kinds, domains and texts",
  "Tests check the counts after one or two additions.",
  ["registry.go"],[("incremental counters","PCPRegistry.addMetric, AddInstanceDomain"),("queries","PCPRegistry.*Count")],state="maps and counters of the registry")
p("R02","Registry admission: unique names, frozen while active, failures inert",
  "Adding a metric or domain succeeds only when no entry of that name exists and no mapping is active and (for a metric over a domain) the registered domain of that name is the very one the metric uses; an addition that reports an error leaves the registry's entries unchanged and a successful one adds exactly the requested metric and at most its own domain.",
  ["inputs","histories"],"every registry content and every argument, by object or by name",
  "Tests check a duplicate or two.",
  ["registry.go"],[("admission","PCPRegistry.AddMetric/AddInstanceDomain/…ByName/…ByString")])
p("R03","Format version switches exactly when a name outgrows version 1",
  "The registry selects format version 2 exactly when some registered metric or instance name is longer than 63 bytes, never reverts, and under version 1 every written name fits its inline slot with a terminator.",
  ["inputs","histories"],"every sequence of additions and name lengths",
  "Tests add one long name.",
  ["registry.go"],[("version switch","PCPRegistry.addMetric, AddInstanceDomain")])
p("C01","Layout: sections tile the exported file exactly",
  "For every registry content the header, table of contents, domain, instance, metric, value and text sections of the exported file lie in that order, contiguous and non-overlapping, each exactly its count times its record size, and the file is exactly as long as their sum.",
  ["inputs","histories"],"every registry content and both format versions",
  "Tests compute the length for a few registries.",
  ["client.go"],[("size","PCPClient.Length, tocCount"),("offsets","PCPClient.start")])
p("C02","Header and table of contents are truthful",
  "The exported header carries the magic, the format version in use, the generation, the number of table entries, the client's flags, the process id and the cluster id; and the table of contents has one entry per non-empty domain, instance and text section plus metrics and values, each stating the right type, count and section offset.",
  ["inputs","histories"],"every registry content, flag and client name",
  "Tests inspect headers of a few registries.",
  ["client.go"],[("header","PCPClient.writeHeaderBlock"),("table","PCPClient.writeTocBlock, writeSingleToc")])
p("C03","Metric descriptors and value records are written faithfully",
  "Every registered metric gets exactly one descriptor record with its name (or name slot), id, type, semantics, unit code, domain id or -1, and text slots, and one value record per instance (one for a singleton) holding its current value and referring to that descriptor and to its instance record, or zero.",
  ["inputs","histories","schedules"],"every metric kind, metadata, value and both format versions",
  "Tests check single values of a few metrics.",
  ["client.go"],[("descriptor","PCPClient.writeMetricDesc"),("values","PCPClient.writeSingletonMetric/writeInstanceMetric/writeValue")])
p("C04","Domain and instance records are written faithfully",
  "Every registered domain gets exactly one record with its id, instance count, the offset of its contiguous block of instance records and its text slots, and each of its instances gets exactly one record in that block with the offset of the domain record, the instance id and its name (or name slot).",
  ["inputs","histories","schedules"],"every set of domains, instances and both format versions",
  "Tests check one or two domains.",
  ["client.go"],[("domains","PCPClient.writeInstanceDomains/writeInstanceDomain"),("instances","PCPClient.writeInstance")])
p("C05","Text slots never overlap and always keep their terminator",
  "Every text stored in the exported file (name, description or string value, initially or by a later update) lies inside its own fixed-size slot, leaves at least one zero byte after it, and updating a string value clears the remainder of its slot without touching any other byte.",
  ["inputs","histories","schedules"],"every text length and content, every update sequence",
  "Tests write short strings.",
  ["client.go","metrics.go"],[("slots","PCPClient.write* and string allocator"),("updates","newupdateClosure")])
p("C06","Publication: the matching generation number is stored last",
  "While an exported file is being populated its second generation number is zero, and the store that makes it equal to the first happens after every other store of the start-up sequence has completed.",
  ["schedules","crash_points"],"every interleaving of the writer goroutines and every point at which a reader or a crash samples the file",
  "Tests read the file only after start has returned.",
  ["client.go"],[("publication","PCPClient.start, writeHeaderBlock")])
p("C07","Live updates hit the metric's own slot, and only while active",
  "While a client is active each successful set of a registered metric stores the new value's encoding in that metric's (and instance's) own value slot and changes no other byte; after the client is stopped, sets still succeed on the in-memory value without touching the released mapping.",
  ["inputs","histories"],"every metric kind, value and start/stop/set sequence",
  "Tests update one metric once and never update after stop.",
  ["metrics.go","client.go"],[("update hook","newupdateClosure"),("installation and removal","PCPClient.writeSingletonMetric/writeInstanceMetric/stop")])
p("C08","Client lifecycle: active exactly between start and stop",
  "A client's registry is frozen and its flags are immutable exactly from a successful start to the next stop; starting creates a mapping of exactly the computed size, a failed start leaves the client inactive, and stopping an inactive client is an error that changes nothing.",
  ["histories","fault_sequences"],"every sequence of start, stop, flag and registration calls, and every failure of the underlying file operations",
  "Tests run start/stop once.",
  ["client.go","bytewriter/memorymappedwriter.go"],[("lifecycle","PCPClient.Start/Stop/SetFlag"),("mapping","NewMemoryMappedWriter")])
p("C09","Exported files stay inside the mmv directory",
  "For every accepted client name the exported file is a direct child, bearing that name, of the mmv directory under the configured temporary directory; names containing a path separator, empty names and the dot names are refused.",
  ["inputs","configurations"],"every name string and configuration",
  "The test tries one name.",
  ["client.go"],[("path construction","mmvFileLocation")])
p("C10","Start-up and shut-down bookkeeping cannot crash or deadlock",
  "For every registry content, writing the export never sends on or receives from a missing allocator, never over- or under-counts its completion groups, never exceeds the capacity of an allocator and never addresses outside the mapping, so that it runs to completion without panic.",
  ["inputs","schedules"],"every registry content (including empty ones and domains without instances)",
  "Tests use registries with at least one instance per domain.",
  ["client.go"],[("allocators and wait groups","PCPClient.start, writeTocBlock, write*")])
p("D01","Dumping arbitrary bytes never crashes or hangs",
  "For every byte sequence the dump either returns an error or a result, never panics, never reads outside the input and never waits for something that cannot happen; counts, offsets, versions and section types taken from the input are validated before use.",
  ["inputs"],"every byte sequence of every length",
  "Tests feed two valid files.",
  ["mmvdump/mmvdump.go"],[("validation","readHeader/readToc/readItems/readComponents")])
p("D02","A successful dump returns exactly what the bytes say",
  "A successful dump's header and table entries are the little-endian decodings of the bytes at their fixed positions, the two generation numbers agree, and for every table entry the corresponding collection holds exactly one record per index, at offset plus index times record size, decoded from the bytes there according to the format version.",
  ["inputs"],"every byte sequence for which dumping succeeds",
  "Tests compare counts for two files.",
  ["mmvdump/mmvdump.go"],[("record views","read* functions")])
p("D03","Rendering a dump never crashes",
  "Rendering any result of a successful dump returns nil or an error - including when a record refers to a missing or wrongly typed record - and never panics.",
  ["inputs"],"every result of a successful dump",
  "Tests render nothing malformed.",
  ["mmvdump/writer.go"],[("lookups","writeInstance/writeInstanceDomain/writeMetric/writeValue/writeString")])
p("D04","Dumped units and values are interpreted per the PMAPI encoding",
  "The dumper's dimension and scale accessors return the signed 4-bit dimension and 4-bit scale fields of the unit code for every 32-bit code, and fixed-size values are decoded as the declared type's bit pattern with an error for every other type.",
  ["inputs"],"all 2^32 unit codes, all 2^64 slot contents, all type codes",
  "Tests decode none of these directly.",
  ["mmvdump/pcp.go","mmvdump/mmvdump.go"],[("unit fields","Unit.*Dim/*Scale"),("values","FixedVal")])
p("R04","Registry state is accessed only under its locks",
  "Every read or write of the registry's shared tables and counters by its public operations happens while holding the lock that guards them (exclusively when writing), the uniqueness check and the insertion of a name happen under one uninterrupted exclusive acquisition, and every lock is released on every return path.",
  ["schedules"],"every interleaving of registry operations",
  "Tests are sequential.",
  ["registry.go"],[("locking","PCPRegistry methods")])
p("I01","Identifiers are unique within one export",
  "No two metrics of one registry share a metric id, no two domains share a domain id and no two instances of one domain share an instance id.",
  ["inputs","histories"],"every set of names",
  "Tests never register colliding names.",
  ["speed.go","metrics.go","instance_domain.go"],[("hash truncation","hash")])
p("S01","Metric strings parse to the metric, domain and instances they spell",
  "A registration string is accepted exactly when it is dotted identifiers with at most one bracketed instance list, and the resulting metric name, domain name and instance names are exactly the spelled ones.",
  ["inputs"],"every string",
  "Tests parse a few strings.",
  ["registry.go"],[("regular expression","parseString")])
p("F01","Configuration parsing keeps exactly the key=value lines",
  "The loaded configuration maps each upper-case key of a key=value line of the configuration file to its value, and a missing file leaves the defaults.",
  ["configurations"],"every configuration file",
  "One sample file is tested.",
  ["config.go"],[("parser","initConfig")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
