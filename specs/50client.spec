package speed
set field PCPClient writer bytewriter.Writer
set field PCPClient r *PCPRegistry
set field pcpInstance offset int

# ---- ghost state of a start-up
# allocator channels (see DESIGN.md): tok: a value is in the channel; held: the value this thread
# received and still has to hand on (-1: none); chbase/chlim: the section it allocates from;
# chused: bytes handed out so far; lastalloc: where the last region allocated here starts
ghost ready(ref) int
ghost hand(ref) int
ghost chinit(ref) int
ghost chbase(ref) int
ghost chlim(ref) int
ghost chused(ref) int
ghost lastalloc(ref) int
# bytes of the file that are reserved for a record or text / that have been written
ghost taken() set.mint
ghost wrote() set.mint
# where things were written
ghost auto inameoff(ref) int
ghost auto domoff(ref) int
ghost auto domfirst(ref) int
ghost auto domshort(ref) int
ghost auto domlong(ref) int

define mm(c *PCPClient) *bytewriter.MemoryMappedWriter = c.writer.(*bytewriter.MemoryMappedWriter)
define fbuf(c *PCPClient) []byte = mm(c).ByteWriter.buffer
define flen(c *PCPClient) int = len(fbuf(c))
define wok(c *PCPClient) bool = c != nil && c.r != nil && c.writer is *bytewriter.MemoryMappedWriter && mm(c) != nil && mm(c).ByteWriter != nil && flen(c) <= 1125899906842624 && whole(fbuf(c))
define instlen(c *PCPClient) int = ite(c.r.version2, 24, 80)
define metlen(c *PCPClient) int = ite(c.r.version2, 48, 104)
define namemax(c *PCPClient) int = ite(c.r.version2, 255, 63)

# an allocator that can be used; no allocator is held
define lane(c *PCPClient, ch chan int) bool = ch != nil && ready(ch) == 1 && chinit(ch) == 1 && 0 <= chbase(ch) && chlim(ch) <= flen(c)
define idle(c *PCPClient) bool = hand(c.indomoffsetc) == -1 && hand(c.instanceoffsetc) == -1 && hand(c.metricoffsetc) == -1 && hand(c.valueoffsetc) == -1 && hand(c.stringoffsetc) == -1
define distinct(c *PCPClient, a chan int, b chan int) bool = a != b || a == nil
define lanes(c *PCPClient) bool = distinct(c, c.indomoffsetc, c.instanceoffsetc) && distinct(c, c.indomoffsetc, c.metricoffsetc) && distinct(c, c.indomoffsetc, c.valueoffsetc) && distinct(c, c.indomoffsetc, c.stringoffsetc) && distinct(c, c.instanceoffsetc, c.metricoffsetc) && distinct(c, c.instanceoffsetc, c.valueoffsetc) && distinct(c, c.instanceoffsetc, c.stringoffsetc) && distinct(c, c.metricoffsetc, c.valueoffsetc) && distinct(c, c.metricoffsetc, c.stringoffsetc) && distinct(c, c.valueoffsetc, c.stringoffsetc)
# allocators are waited for in a fixed order
define noheld(c *PCPClient, w ref) bool = hand(c.stringoffsetc) < 0 && (hand(c.valueoffsetc) < 0 || w == c.stringoffsetc) && (hand(c.metricoffsetc) < 0 || w == c.stringoffsetc || w == c.valueoffsetc) && (hand(c.instanceoffsetc) < 0 || w == c.stringoffsetc || w == c.valueoffsetc || w == c.metricoffsetc) && (hand(c.indomoffsetc) < 0 || w == c.stringoffsetc || w == c.valueoffsetc || w == c.metricoffsetc || w == c.instanceoffsetc)

# ---- what the bytes say
define w32(c *PCPClient, o int, v mint) bool = seqeq(fbuf(c), o, 4, le(4, v))
define w64(c *PCPClient, o int, v mint) bool = seqeq(fbuf(c), o, 8, le(8, v))
define str(c *PCPClient, o int, s string, n int) bool = seqeq(fbuf(c), o, len(s), strseq(s)) && seqeq(fbuf(c), o + len(s), n - len(s), zeros())
# unwritten bytes are zero
define clean(c *PCPClient) bool = (forall b int :: (b in wrote()) ==> (b in taken())) && (forall b int :: 0 <= b && b < flen(c) && !(b in wrote()) ==> fbuf(c)[b] == 0)
define spare(c *PCPClient, lo int, n int) bool = 0 <= lo && lo + n <= flen(c) && (forall b int :: lo <= b && b < lo + n ==> (b in taken()) && !(b in wrote()))
# a start-up step writes at most [lo,lo+n) and regions that were not reserved before
define step(c *PCPClient, lo int, n int) bool = (forall b int :: (b in wrote()) && !old(b in wrote()) ==> lo <= b && b < lo + n || (b in taken()) && !old(b in taken())) && (forall b int :: old(b in taken()) ==> (b in taken())) && (forall b int :: old(b in wrote()) ==> (b in wrote())) && (forall b int :: 0 <= b && b < flen(c) && (old(b in wrote()) || !(b in wrote())) ==> fbuf(c)[b] == old(fbuf(c)[b]))
# the same, counted from the start of a loop
define insidee(c *PCPClient) bool = forall b int :: b < 0 || cap(fbuf(c)) <= b ==> fbuf(c)[b] == entry(fbuf(c)[b])
define stepe(c *PCPClient, lo int, n int) bool = (forall b int :: (b in wrote()) && !entry(b in wrote()) ==> lo <= b && b < lo + n || (b in taken()) && !entry(b in taken())) && (forall b int :: entry(b in taken()) ==> (b in taken())) && (forall b int :: entry(b in wrote()) ==> (b in wrote())) && (forall b int :: 0 <= b && b < flen(c) && (entry(b in wrote()) || !(b in wrote())) ==> fbuf(c)[b] == entry(fbuf(c)[b]))
# a text slot of one's own
define slot(c *PCPClient, o int) bool = 0 <= o && o + 256 <= flen(c) && (forall b int :: o <= b && b < o + 256 ==> (b in taken()) && !old(b in taken()))

define slote(c *PCPClient, o int) bool = 0 <= o && o + 256 <= flen(c) && (forall b int :: o <= b && b < o + 256 ==> (b in taken()) && !entry(b in taken()))

define instrec(c *PCPClient, i *pcpInstance, indomoff int, off int, so int) bool = w64(c, off, indomoff) && w32(c, off + 8, 0) && w32(c, off + 12, i.id) && ite(c.r.version2, w64(c, off + 16, so) && str(c, so, i.name, 256), str(c, off + 16, i.name, 64))

func (c *PCPClient) writeInstance(i *pcpInstance, indomoff int, off int)
  props C04 C05 C10
  flags writeonce delegated 
  requires wok(c) && i != nil && idle(c) && lanes(c) && clean(c)
  requires spare(c, off, instlen(c)) && 0 <= indomoff
  requires c.r.version2 ==> lane(c, c.stringoffsetc)
  requires len(i.name) <= namemax(c)
  blocking noheld(c, waited)
  ensures idle(c) && clean(c) && step(c, off, instlen(c))
  ensures [allocators usable] ready(c.stringoffsetc) == old(ready(c.stringoffsetc))
  ensures [texts used] chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + ite(c.r.version2, 256, 0)
  assign inameoff(i) := u64at(fbuf(c), off + 16)
  ensures [C04 offset cached] i.offset == off
  ensures [C04 record] instrec(c, i, indomoff, off, inameoff(i))
  ensures [C04 C05 name slot] c.r.version2 ==> str(c, inameoff(i), i.name, 256)
  ensures [C04 C05 own name slot] c.r.version2 ==> slot(c, inameoff(i))
  modifies i.offset, contents(fbuf(c)), taken(), wrote(), ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)

# ---- domains
define ilen(c *PCPClient, n int) int = ite(c.r.version2, 24 * n, 80 * n)
define inst(d *PCPInstanceDomain, k string) *pcpInstance = d.instances[k]
define dok(c *PCPClient, d *PCPInstanceDomain) bool = d != nil && instobj(d) && len(d.shortDescription) <= 255 && len(d.longDescription) <= 255 && len(d.instances) <= 1099511627776 && (forall k string :: k in d.instances ==> len(k) <= namemax(c))
# the record of one instance, inside the block [lo,hi)
define instdone(c *PCPClient, d *PCPInstanceDomain, k string, lo int, hi int, at int) bool = lo <= inst(d, k).offset && inst(d, k).offset + instlen(c) <= hi && instrec(c, inst(d, k), at, inst(d, k).offset, inameoff(inst(d, k))) && (c.r.version2 ==> slot(c, inameoff(inst(d, k))))
define instdonee(c *PCPClient, d *PCPInstanceDomain, k string, lo int, hi int, at int) bool = lo <= inst(d, k).offset && inst(d, k).offset + instlen(c) <= hi && instrec(c, inst(d, k), at, inst(d, k).offset, inameoff(inst(d, k))) && (c.r.version2 ==> slote(c, inameoff(inst(d, k))))
define apart(a int, b int, n int) bool = a + n <= b || b + n <= a
define disj(a int, b int, n int) bool = forall x int :: a <= x && x < a + n ==> x < b || b + n <= x
define textrec(c *PCPClient, o int, so int, s string) bool = ite(s == "", w64(c, o, 0), w64(c, o, so) && str(c, so, s, 256) && slot(c, so))
define domrec(c *PCPClient, d *PCPInstanceDomain) bool = w32(c, domoff(d), d.id) && w32(c, domoff(d) + 4, len(d.instances)) && w64(c, domoff(d) + 8, domfirst(d)) && textrec(c, domoff(d) + 16, domshort(d), d.shortDescription) && textrec(c, domoff(d) + 24, domlong(d), d.longDescription)

define dtexts1(c *PCPClient, d *PCPInstanceDomain) bool = c.r.version2 && len(d.instances) > 0 || d.shortDescription != "" || d.longDescription != ""
define blockdone(c *PCPClient, d *PCPInstanceDomain) bool = (forall k string :: k in d.instances ==> instdone(c, d, k, domfirst(d), domfirst(d) + ilen(c, len(d.instances)), domoff(d))) && (forall k string, l string :: k in d.instances && l in d.instances && k != l ==> apart(inst(d, k).offset, inst(d, l).offset, instlen(c)) && (c.r.version2 ==> apart(inameoff(inst(d, k)), inameoff(inst(d, l)), 256)))
define within(ch chan int, o int, n int) bool = chbase(ch) <= o && o + n <= chlim(ch)

func (c *PCPClient) writeInstanceDomain(indom *PCPInstanceDomain)
  props C04
  flags writeonce delegated 
  requires wok(c) && dok(c, indom) && idle(c) && lanes(c) && clean(c)
  requires lane(c, c.indomoffsetc) && lane(c, c.instanceoffsetc)
  requires dtexts1(c, indom) ==> lane(c, c.stringoffsetc)
  blocking noheld(c, waited)
  loopinv {ioff int} ioff == lastalloc(c.instanceoffsetc) + ilen(c, nvisited())
  loopinv insidee(c)
  loopinv wok(c) && idle(c) && clean(c) && stepe(c, lastalloc(c.instanceoffsetc), ilen(c, len(indom.instances)))
  loopinv ready(c.stringoffsetc) == old(ready(c.stringoffsetc)) && chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + ite(c.r.version2, 256 * nvisited(), 0)
  loopinv forall b int :: lastalloc(c.instanceoffsetc) + ilen(c, nvisited()) <= b && b < lastalloc(c.instanceoffsetc) + ilen(c, len(indom.instances)) ==> (b in taken()) && !(b in wrote())
  loopinv [C04] forall k string :: visited(k) ==> instdonee(c, indom, k, lastalloc(c.instanceoffsetc), lastalloc(c.instanceoffsetc) + ilen(c, nvisited()), lastalloc(c.indomoffsetc))
  loopinv [C04] forall k string, l string :: visited(k) && visited(l) && k != l ==> apart(inst(indom, k).offset, inst(indom, l).offset, instlen(c)) && (c.r.version2 ==> apart(inameoff(inst(indom, k)), inameoff(inst(indom, l)), 256))
  loopinv [C04] forall i *pcpInstance :: !((i.name in indom.instances) && indom.instances[i.name] == i) ==> i.offset == old(i.offset) && inameoff(i) == old(inameoff(i))
  assign domoff(indom) := lastalloc(c.indomoffsetc)
  assign domfirst(indom) := lastalloc(c.instanceoffsetc)
  assign domshort(indom) := u64at(fbuf(c), lastalloc(c.indomoffsetc) + 16)
  assign domlong(indom) := u64at(fbuf(c), lastalloc(c.indomoffsetc) + 24)
  ensures idle(c) && clean(c) && step(c, 0, 0)
  ensures [allocators usable] ready(c.indomoffsetc) == 1 && ready(c.instanceoffsetc) == 1 && ready(c.stringoffsetc) == old(ready(c.stringoffsetc))
  ensures [bytes used] chused(c.indomoffsetc) == old(chused(c.indomoffsetc)) + 32 && chused(c.instanceoffsetc) == old(chused(c.instanceoffsetc)) + ilen(c, len(indom.instances)) && chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * (ite(c.r.version2, len(indom.instances), 0) + dtexts(indom))
  ensures [C04 in the section] within(c.indomoffsetc, domoff(indom), 32) && within(c.instanceoffsetc, domfirst(indom), ilen(c, len(indom.instances)))
  ensures [C04 C05 domain record] domrec(c, indom)
  ensures [C04 own region] forall b int :: domoff(indom) <= b && b < domoff(indom) + 32 || domfirst(indom) <= b && b < domfirst(indom) + ilen(c, len(indom.instances)) ==> (b in taken()) && !old(b in taken())
  # (the instance records are in place when the loop ends, by its invariants; no byte is written twice, so they stay)
  ensures [C04 other instances] forall i *pcpInstance :: !((i.name in indom.instances) && indom.instances[i.name] == i) ==> i.offset == old(i.offset) && inameoff(i) == old(inameoff(i))
  modifies all(pcpInstance.offset), inameoff, domoff(indom), domfirst(indom), domshort(indom), domlong(indom), contents(fbuf(c)), taken(), wrote()
  modifies ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)
  modifies ready(c.instanceoffsetc), hand(c.instanceoffsetc), chused(c.instanceoffsetc), lastalloc(c.instanceoffsetc)
  modifies ready(c.indomoffsetc), hand(c.indomoffsetc), chused(c.indomoffsetc), lastalloc(c.indomoffsetc)


# ---- all domains
define offs() bool = forall i *pcpInstance :: 0 <= i.offset
define slot1(c *PCPClient, o int) bool = 0 <= o && o + 256 <= flen(c) && (forall b int :: o <= b && b < o + 256 ==> (b in taken()))
define textrec1(c *PCPClient, o int, so int, s string) bool = ite(s == "", w64(c, o, 0), w64(c, o, so) && str(c, so, s, 256) && slot1(c, so))
define domrec1(c *PCPClient, d *PCPInstanceDomain) bool = 0 <= domoff(d) && domoff(d) + 32 <= flen(c) && (forall b int :: domoff(d) <= b && b < domoff(d) + 32 ==> (b in taken())) && w32(c, domoff(d), d.id) && w32(c, domoff(d) + 4, len(d.instances)) && w64(c, domoff(d) + 8, domfirst(d)) && textrec1(c, domoff(d) + 16, domshort(d), d.shortDescription) && textrec1(c, domoff(d) + 24, domlong(d), d.longDescription)
define rdoms(c *PCPClient) bool = forall k string :: k in c.r.instanceDomains ==> dok(c, c.r.instanceDomains[k])
define rdom(c *PCPClient, k string) *PCPInstanceDomain = c.r.instanceDomains[k]
define domused(c *PCPClient) bool = chused(c.indomoffsetc) == old(chused(c.indomoffsetc)) + 32 * len(c.r.instanceDomains) && chused(c.instanceoffsetc) == old(chused(c.instanceoffsetc)) + ilen(c, icount(c.r)) && chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * (ite(c.r.version2, icount(c.r), 0) + dscount(c.r))

func (c *PCPClient) writeInstanceDomains()
  props C04 C10
  flags writeonce delegated 
  requires wok(c) && rok(c.r)
  requires rdoms(c)
  requires idle(c) && lanes(c)
  requires clean(c)
  requires len(c.r.instanceDomains) > 0 ==> lane(c, c.indomoffsetc) && lane(c, c.instanceoffsetc)
  requires forall k string :: k in c.r.instanceDomains && dtexts1(c, rdom(c, k)) ==> lane(c, c.stringoffsetc)
  blocking noheld(c, waited)
  loopinv wok(c) && idle(c) && clean(c) && stepe(c, 0, 0) && insidee(c)
  loopinv ready(c.stringoffsetc) == old(ready(c.stringoffsetc)) && ready(c.indomoffsetc) == old(ready(c.indomoffsetc)) && ready(c.instanceoffsetc) == old(ready(c.instanceoffsetc))
  loopinv chused(c.indomoffsetc) == old(chused(c.indomoffsetc)) + 32 * nvisited()
  loopinv chused(c.instanceoffsetc) == old(chused(c.instanceoffsetc)) + ilen(c, (sum k string in visitedset() :: len(c.r.instanceDomains[k].instances)))
  loopinv chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * (ite(c.r.version2, (sum k string in visitedset() :: len(c.r.instanceDomains[k].instances)), 0) + (sum k string in visitedset() :: dtexts(c.r.instanceDomains[k])))
  loopinv [C04] forall k string :: visited(k) ==> domrec1(c, rdom(c, k))
  ensures idle(c) && clean(c) && step(c, 0, 0)
  ensures [allocators usable] ready(c.indomoffsetc) == old(ready(c.indomoffsetc)) && ready(c.instanceoffsetc) == old(ready(c.instanceoffsetc)) && ready(c.stringoffsetc) == old(ready(c.stringoffsetc))
  ensures [bytes used] domused(c)
  ensures [C04 domain records] forall k string :: k in c.r.instanceDomains ==> domrec1(c, rdom(c, k))
  modifies all(pcpInstance.offset), inameoff, domoff, domfirst, domshort, domlong, contents(fbuf(c)), taken(), wrote()
  modifies ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)
  modifies ready(c.instanceoffsetc), hand(c.instanceoffsetc), chused(c.instanceoffsetc), lastalloc(c.instanceoffsetc)
  modifies ready(c.indomoffsetc), hand(c.indomoffsetc), chused(c.indomoffsetc), lastalloc(c.indomoffsetc)

# ---- metrics
ghost auto descat(ref) int
ghost auto mnameoff(ref) int
ghost auto mshort(ref) int
ghost auto mlong(ref) int
# where an update closure writes, and the value record it was made for
fun recof(u updateClosure) int
# (the captured offset of a closure never changes)
fun slotof(u updateClosure) int

define pmapi(u MetricUnit) int = ite(u is *metricUnit, u.(*metricUnit).repr, ite(u is SpaceUnit, u32(u.(SpaceUnit)), ite(u is TimeUnit, u32(u.(TimeUnit)), u32(u.(CountUnit)))))
define uok(u MetricUnit) bool = u is *metricUnit && u.(*metricUnit) != nil || u is SpaceUnit || u is TimeUnit || u is CountUnit
define dscok(c *PCPClient, d *pcpMetricDesc) bool = d != nil && uok(d.u) && len(d.name) <= namemax(c) && len(d.shortDescription) <= 255 && len(d.longDescription) <= 255
define nidle(c *PCPClient) bool = hand(c.indomoffsetc) == -1 && hand(c.instanceoffsetc) == -1 && hand(c.valueoffsetc) == -1 && hand(c.stringoffsetc) == -1
define dbody(c *PCPClient, off int) int = off + ite(c.r.version2, 8, 64)
define descrec(c *PCPClient, d *pcpMetricDesc, n *PCPInstanceDomain, off int) bool = ite(c.r.version2, w64(c, off, mnameoff(d)) && str(c, mnameoff(d), d.name, 256) && slot(c, mnameoff(d)), str(c, off, d.name, 64)) && w32(c, dbody(c, off), d.id) && w32(c, dbody(c, off) + 4, d.t) && w32(c, dbody(c, off) + 8, d.sem) && w32(c, dbody(c, off) + 12, pmapi(d.u)) && ite(n == nil, w32(c, dbody(c, off) + 16, 4294967295), w32(c, dbody(c, off) + 16, n.id)) && w32(c, dbody(c, off) + 20, 0) && textrec(c, dbody(c, off) + 24, mshort(d), d.shortDescription) && textrec(c, dbody(c, off) + 32, mlong(d), d.longDescription)
define desctexts(c *PCPClient, d *pcpMetricDesc) int = ite(c.r.version2, 1, 0) + b1(d.shortDescription != "") + b1(d.longDescription != "")

func (c *PCPClient) writeMetricDesc(desc *pcpMetricDesc, indom *PCPInstanceDomain, off int)
  props C03 C05
  flags writeonce mergecalls delegated 
  requires wok(c) && dscok(c, desc) && nidle(c) && lanes(c) && clean(c)
  requires c.metricoffsetc != nil && ready(c.metricoffsetc) == 0 && hand(c.metricoffsetc) == off && chinit(c.metricoffsetc) == 1 && 0 <= chbase(c.metricoffsetc) && chbase(c.metricoffsetc) <= off && off <= chlim(c.metricoffsetc) && chlim(c.metricoffsetc) <= flen(c)
  requires desctexts(c, desc) > 0 ==> lane(c, c.stringoffsetc)
  blocking noheld(c, waited)
  assign descat(desc) := off
  assign mnameoff(desc) := u64at(fbuf(c), off)
  assign mshort(desc) := u64at(fbuf(c), dbody(c, off) + 24)
  assign mlong(desc) := u64at(fbuf(c), dbody(c, off) + 32)
  ensures idle(c) && clean(c) && step(c, 0, 0)
  ensures [allocators usable] ready(c.metricoffsetc) == 1 && ready(c.stringoffsetc) == old(ready(c.stringoffsetc))
  ensures [bytes used] chused(c.metricoffsetc) == old(chused(c.metricoffsetc)) + metlen(c) && chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * desctexts(c, desc)
  ensures [C03 in the section] within(c.metricoffsetc, off, metlen(c))
  ensures [C03 own region] forall b int :: off <= b && b < off + metlen(c) ==> (b in taken()) && !old(b in taken())
  ensures [C03 C05 descriptor] descrec(c, desc, indom, off)
  modifies contents(fbuf(c)), taken(), wrote(), descat(desc), mnameoff(desc), mshort(desc), mlong(desc)
  modifies ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)
  modifies ready(c.metricoffsetc), hand(c.metricoffsetc), chused(c.metricoffsetc), lastalloc(c.metricoffsetc)

define wbytes(v interface{}) bseq = ite(v is string, strseq(v.(string)), binseq(v))
define vlen(t MetricType) int = ite(t == 0 || t == 1 || t == 4, 4, 8)
define vtext(c *PCPClient, o int) int = u64at(fbuf(c), o + 8)
define valrec(c *PCPClient, t MetricType, v interface{}, o int, so int) bool = ite(t == 6, w64(c, o, 255) && w64(c, o + 8, so) && str(c, so, v.(string), 256) && slot(c, so), seqeq(fbuf(c), o, vlen(t), wbytes(v)) && seqeq(fbuf(c), o + vlen(t), 16 - vlen(t), zeros()))

func (c *PCPClient) writeValue(t MetricType, val interface{}, offset int) (u)
  props C03 C05 C07 C10
  flags writeonce delegated 
  requires wok(c) && tyok(t, val) && idle(c) && lanes(c) && clean(c) && spare(c, offset, 16)
  requires t == 6 ==> lane(c, c.stringoffsetc)
  blocking noheld(c, waited)
  ensures idle(c) && clean(c) && step(c, offset, 16)
  ensures [allocators usable] ready(c.stringoffsetc) == old(ready(c.stringoffsetc))
  ensures [texts used] chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + ite(t == 6, 256, 0)
  ensures [C03 C05 value] valrec(c, t, val, offset, lastalloc(c.stringoffsetc))
  ensures u != nil
  ensures [C07 C05 updates go to the own slot] captured(u, writer) === c.writer && captured(u, offset) == ite(t == 6, lastalloc(c.stringoffsetc), offset)
  defines recof(u) == offset
  defines slotof(u) == ite(t == 6, lastalloc(c.stringoffsetc), offset)
  modifies contents(fbuf(c)), taken(), wrote()
  modifies ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)

define valuerec(c *PCPClient, t MetricType, v interface{}, o int, so int, doff int, ioff int) bool = valrec(c, t, v, o, so) && w64(c, o + 16, doff) && w64(c, o + 24, ioff)
define vtexts(t MetricType) int = ite(t == 6, 1, 0)
define metlane(c *PCPClient) bool = lane(c, c.metricoffsetc) && lane(c, c.valueoffsetc)
define own(c *PCPClient, o int, n int) bool = 0 <= o && o + n <= flen(c) && (forall b int :: o <= b && b < o + n ==> (b in taken()) && !old(b in taken()))
define owne(c *PCPClient, o int, n int) bool = 0 <= o && o + n <= flen(c) && (forall b int :: o <= b && b < o + n ==> (b in taken()) && !entry(b in taken()))

func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric)
  props C03 C07 C10
  flags writeonce delegated
  requires wok(c) && singok(m) && dscok(c, m.pcpMetricDesc) && tyok(m.t, m.val) && idle(c) && lanes(c) && clean(c) && metlane(c)
  requires desctexts(c, m.pcpMetricDesc) + vtexts(m.t) > 0 ==> lane(c, c.stringoffsetc)
  blocking noheld(c, waited)
  ensures idle(c) && clean(c) && step(c, 0, 0)
  ensures [allocators usable] ready(c.metricoffsetc) == 1 && ready(c.valueoffsetc) == 1 && ready(c.stringoffsetc) == old(ready(c.stringoffsetc))
  ensures [bytes used] chused(c.metricoffsetc) == old(chused(c.metricoffsetc)) + metlen(c) && chused(c.valueoffsetc) == old(chused(c.valueoffsetc)) + 32 && chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * (desctexts(c, m.pcpMetricDesc) + vtexts(m.t))
  ensures [C03 in the sections] within(c.metricoffsetc, descat(m.pcpMetricDesc), metlen(c)) && within(c.valueoffsetc, recof(m.update), 32)
  ensures [C03 own regions] own(c, descat(m.pcpMetricDesc), metlen(c)) && own(c, recof(m.update), 32)
  ensures [C03 descriptor] descrec(c, m.pcpMetricDesc, nil, descat(m.pcpMetricDesc))
  ensures [C03 value record] valuerec(c, m.t, m.val, recof(m.update), slotof(m.update), descat(m.pcpMetricDesc), 0)
  ensures [C07 updates go to the own slot] m.update != nil && (m.t == 6 || slotof(m.update) == recof(m.update))
  modifies m.update, contents(fbuf(c)), taken(), wrote(), descat(m.pcpMetricDesc), mnameoff(m.pcpMetricDesc), mshort(m.pcpMetricDesc), mlong(m.pcpMetricDesc)
  modifies ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)
  modifies ready(c.metricoffsetc), hand(c.metricoffsetc), chused(c.metricoffsetc), lastalloc(c.metricoffsetc)
  modifies ready(c.valueoffsetc), hand(c.valueoffsetc), chused(c.valueoffsetc), lastalloc(c.valueoffsetc)

define iwok(m *pcpInstanceMetric) bool = instmok(m) && instobj(m.indom) && (forall k string :: (k in m.vals) <==> (k in m.indom.instances)) && (forall k string :: k in m.vals ==> m.vals[k] != nil && tyok(m.t, m.vals[k].val)) && (forall k string, l string :: k in m.vals && l in m.vals && k != l ==> m.vals[k] != m.vals[l])
define ivaldone(c *PCPClient, m *pcpInstanceMetric, k string) bool = m.vals[k].update != nil && valuerec1(c, m.t, m.vals[k].val, recof(m.vals[k].update), slotof(m.vals[k].update), descat(m.pcpMetricDesc), m.indom.instances[k].offset)
define valuerec1(c *PCPClient, t MetricType, v interface{}, o int, so int, doff int, ioff int) bool = 0 <= o && o + 32 <= flen(c) && (forall b int :: o <= b && b < o + 32 ==> (b in taken())) && ite(t == 6, w64(c, o, 255) && w64(c, o + 8, so) && str(c, so, v.(string), 256) && slot1(c, so), seqeq(fbuf(c), o, vlen(t), wbytes(v)) && seqeq(fbuf(c), o + vlen(t), 16 - vlen(t), zeros())) && w64(c, o + 16, doff) && w64(c, o + 24, ioff)

func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric)
  props C03 C07
  flags writeonce delegated
  requires wok(c) && iwok(m) && dscok(c, m.pcpMetricDesc) && idle(c) && lanes(c) && clean(c) && metlane(c)
  requires desctexts(c, m.pcpMetricDesc) > 0 || m.t == 6 && len(m.indom.instances) > 0 ==> lane(c, c.stringoffsetc)
  requires len(m.indom.instances) <= 1099511627776
  blocking noheld(c, waited)
  loopinv wok(c) && idle(c) && clean(c) && stepe(c, 0, 0) && insidee(c)
  loopinv ready(c.stringoffsetc) == old(ready(c.stringoffsetc)) && ready(c.valueoffsetc) == 1
  loopinv chused(c.stringoffsetc) == entry(chused(c.stringoffsetc)) + ite(m.t == 6, 256 * nvisited(), 0)
  loopinv chused(c.valueoffsetc) == entry(chused(c.valueoffsetc)) + 32 * nvisited()
  loopinv [C03] forall k string :: visited(k) ==> ivaldone(c, m, k)
  loopinv [C07] forall k string :: visited(k) ==> m.vals[k].update != nil && (m.t == 6 || slotof(m.vals[k].update) == recof(m.vals[k].update))
  loopinv forall k string :: (k in m.vals) && !visited(k) ==> m.vals[k].update == old(m.vals[k].update)
  loopinv [C07] forall v *instanceValue :: entry(v.update) != nil ==> v.update != nil
  ensures idle(c) && clean(c) && step(c, 0, 0)
  ensures [allocators usable] ready(c.metricoffsetc) == 1 && ready(c.valueoffsetc) == 1 && ready(c.stringoffsetc) == old(ready(c.stringoffsetc))
  ensures [bytes used] chused(c.metricoffsetc) == old(chused(c.metricoffsetc)) + metlen(c) && chused(c.valueoffsetc) == old(chused(c.valueoffsetc)) + 32 * len(m.indom.instances) && chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * (desctexts(c, m.pcpMetricDesc) + ite(m.t == 6, len(m.indom.instances), 0))
  ensures [C03 in the section] within(c.metricoffsetc, descat(m.pcpMetricDesc), metlen(c))
  ensures [C03 own region] own(c, descat(m.pcpMetricDesc), metlen(c))
  ensures [C03 descriptor] descrec(c, m.pcpMetricDesc, m.indom, descat(m.pcpMetricDesc))
  ensures [C03 a value record per instance] forall k string :: k in m.indom.instances ==> ivaldone(c, m, k)
  ensures [C07 updates go to the own slots] forall k string :: k in m.indom.instances ==> m.vals[k].update != nil && (m.t == 6 || slotof(m.vals[k].update) == recof(m.vals[k].update))
  ensures [C07 nothing is detached] forall v *instanceValue :: old(v.update) != nil ==> v.update != nil
  modifies all(instanceValue.update), contents(fbuf(c)), taken(), wrote(), descat(m.pcpMetricDesc), mnameoff(m.pcpMetricDesc), mshort(m.pcpMetricDesc), mlong(m.pcpMetricDesc)
  modifies ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)
  modifies ready(c.metricoffsetc), hand(c.metricoffsetc), chused(c.metricoffsetc), lastalloc(c.metricoffsetc)
  modifies ready(c.valueoffsetc), hand(c.valueoffsetc), chused(c.valueoffsetc), lastalloc(c.valueoffsetc)

# ---- all metrics
define msg(m PCPMetric) *pcpSingletonMetric = ite(m is *PCPSingletonMetric, m.(*PCPSingletonMetric).pcpSingletonMetric, ite(m is *PCPCounter, m.(*PCPCounter).pcpSingletonMetric, ite(m is *PCPGauge, m.(*PCPGauge).pcpSingletonMetric, m.(*PCPTimer).pcpSingletonMetric)))
define mwok(c *PCPClient, m PCPMetric) bool = mok(m) && dscok(c, mdesc(m)) && ite(msing(m), tyok(msg(m).t, msg(m).val), iwok(minst(m)) && len(mindom(m).instances) <= 1099511627776)
define rmets(c *PCPClient) bool = forall k string :: k in c.r.metrics ==> mwok(c, c.r.metrics[k])
define attached(m PCPMetric) bool = ite(msing(m), msg(m).update != nil, forall k string :: k in minst(m).vals ==> minst(m).vals[k].update != nil)
define kept() bool = (forall s *pcpSingletonMetric :: old(s.update) != nil ==> s.update != nil) && (forall v *instanceValue :: old(v.update) != nil ==> v.update != nil)
define kepte() bool = (forall s *pcpSingletonMetric :: entry(s.update) != nil ==> s.update != nil) && (forall v *instanceValue :: entry(v.update) != nil ==> v.update != nil)

func (c *PCPClient) writeMetrics()
  props C03 C07 C10
  flags writeonce delegated
  requires wok(c) && rok(c.r)
  requires [metrics] rmets(c)
  requires idle(c) && lanes(c)
  requires clean(c)
  requires len(c.r.metrics) > 0 ==> metlane(c)
  requires c.r.version2 && len(c.r.metrics) > 0 ==> lane(c, c.stringoffsetc)
  requires forall k string :: k in c.r.metrics && mtexts(c.r.metrics[k]) > 0 ==> lane(c, c.stringoffsetc)
  blocking noheld(c, waited)
  loopinv wok(c) && idle(c) && clean(c) && stepe(c, 0, 0) && insidee(c)
  loopinv [C07] kepte()
  loopinv ready(c.stringoffsetc) == old(ready(c.stringoffsetc)) && ready(c.metricoffsetc) == old(ready(c.metricoffsetc)) && ready(c.valueoffsetc) == old(ready(c.valueoffsetc))
  loopinv chused(c.metricoffsetc) == old(chused(c.metricoffsetc)) + metlen(c) * nvisited()
  loopinv chused(c.valueoffsetc) == old(chused(c.valueoffsetc)) + 32 * (sum k string in visitedset() :: nvals(c.r.metrics[k]))
  loopinv chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * (ite(c.r.version2, nvisited(), 0) + (sum k string in visitedset() :: mtexts(c.r.metrics[k])))
  loopinv [C07] forall k string :: visited(k) ==> attached(c.r.metrics[k])
  ensures idle(c) && clean(c) && step(c, 0, 0)
  ensures [allocators usable] ready(c.stringoffsetc) == old(ready(c.stringoffsetc)) && ready(c.metricoffsetc) == old(ready(c.metricoffsetc)) && ready(c.valueoffsetc) == old(ready(c.valueoffsetc))
  ensures [bytes used] chused(c.metricoffsetc) == old(chused(c.metricoffsetc)) + metlen(c) * len(c.r.metrics) && chused(c.valueoffsetc) == old(chused(c.valueoffsetc)) + 32 * vcount(c.r) && chused(c.stringoffsetc) == old(chused(c.stringoffsetc)) + 256 * (ite(c.r.version2, len(c.r.metrics), 0) + mscount(c.r))
  ensures [C07 every metric is attached] forall k string :: k in c.r.metrics ==> attached(c.r.metrics[k])
  modifies all(instanceValue.update), all(pcpSingletonMetric.update), contents(fbuf(c)), taken(), wrote(), descat, mnameoff, mshort, mlong
  modifies ready(c.stringoffsetc), hand(c.stringoffsetc), chused(c.stringoffsetc), lastalloc(c.stringoffsetc)
  modifies ready(c.metricoffsetc), hand(c.metricoffsetc), chused(c.metricoffsetc), lastalloc(c.metricoffsetc)
  modifies ready(c.valueoffsetc), hand(c.valueoffsetc), chused(c.valueoffsetc), lastalloc(c.valueoffsetc)

# ---- the layout
set field PCPRegistry indomoffset int
set field PCPRegistry instanceoffset int
set field PCPRegistry metricsoffset int
set field PCPRegistry valuesoffset int
set field PCPRegistry stringsoffset int
define nstr(r *PCPRegistry) int = mscount(r) + dscount(r) + ite(r.version2, len(r.metrics) + icount(r), 0)
define ntocs(r *PCPRegistry) int = 2 + b1(len(r.instanceDomains) > 0) + b1(icount(r) > 0) + b1(nstr(r) > 0)
define atdoms(r *PCPRegistry) int = 40 + 16 * ntocs(r)
define atinsts(r *PCPRegistry) int = atdoms(r) + 32 * len(r.instanceDomains)
define atmets(r *PCPRegistry) int = atinsts(r) + ite(r.version2, 24 * icount(r), 80 * icount(r))
define atvals(r *PCPRegistry) int = atmets(r) + ite(r.version2, 48 * len(r.metrics), 104 * len(r.metrics))
define attexts(r *PCPRegistry) int = atvals(r) + 32 * vcount(r)
define atend(r *PCPRegistry) int = attexts(r) + 256 * nstr(r)
define rsmall(r *PCPRegistry) bool = small(r) && len(r.metrics) <= 1099511627776 && len(r.instanceDomains) <= 1099511627776

func (c *PCPClient) Length() (n)
  props C01 C08
  flags merge
  requires c != nil && rok(c.r) && counted(c.r)
  assumes rsmall(c.r)
  ensures [length] n == atend(c.r)

define tocent(c *PCPClient, pos int, t int, n int, off int) bool = w32(c, pos, t) && w32(c, pos + 4, n) && w64(c, pos + 8, off)

func (c *PCPClient) writeSingleToc(pos, identifier, count, offset int)
  props C02
  flags writeonce delegated
  requires wok(c) && spare(c, pos, 16) && clean(c) && 0 <= offset && offset <= 1125899906842624
  ensures clean(c) && step(c, pos, 16)
  ensures [table entry] tocent(c, pos, identifier, count, offset)
  modifies contents(fbuf(c)), taken(), wrote()

define toc2(r *PCPRegistry) int = 40 + 16 * b1(len(r.instanceDomains) > 0)
define toc3(r *PCPRegistry) int = toc2(r) + 16 * b1(icount(r) > 0)
define toc(c *PCPClient) bool = (len(c.r.instanceDomains) > 0 ==> tocent(c, 40, 1, len(c.r.instanceDomains), c.r.indomoffset)) && (icount(c.r) > 0 ==> tocent(c, toc2(c.r), 2, icount(c.r), c.r.instanceoffset)) && tocent(c, toc3(c.r), 3, len(c.r.metrics), ite(len(c.r.metrics) == 0, 0, c.r.metricsoffset)) && tocent(c, toc3(c.r) + 16, 4, vcount(c.r), ite(len(c.r.metrics) == 0, 0, c.r.valuesoffset)) && (nstr(c.r) > 0 ==> tocent(c, toc3(c.r) + 32, 5, nstr(c.r), c.r.stringsoffset))
define offok(o int) bool = 0 <= o && o <= 1125899906842624

func (c *PCPClient) writeTocBlock()
  props C02
  flags writeonce merge delegated
  requires wok(c) && rok(c.r) && counted(c.r) && spare(c, 40, 16 * ntocs(c.r)) && clean(c) && idle(c)
  requires offok(c.r.indomoffset) && offok(c.r.instanceoffset) && offok(c.r.metricsoffset) && offok(c.r.valuesoffset) && offok(c.r.stringsoffset)
  assumes rsmall(c.r)
  blocking noheld(c, waited)
  ensures clean(c) && step(c, 40, 16 * ntocs(c.r))
  ensures [table of contents] toc(c)
  modifies contents(fbuf(c)), taken(), wrote()

define fill(c *PCPClient, ch chan int, lo int, hi int) bool = chbase(ch) == lo && chlim(ch) == hi && chbase(ch) + chused(ch) == hi
define tiled(c *PCPClient) bool = flen(c) == atend(c.r) && c.r.indomoffset == atdoms(c.r) && c.r.instanceoffset == atinsts(c.r) && c.r.metricsoffset == atmets(c.r) && c.r.valuesoffset == atvals(c.r) && c.r.stringsoffset == attexts(c.r)
define nochans(c *PCPClient) bool = c.indomoffsetc == nil && c.instanceoffsetc == nil && c.metricoffsetc == nil && c.valueoffsetc == nil && c.stringoffsetc == nil
define header(c *PCPClient) bool = seqeq(fbuf(c), 0, 3, strseq("MMV")) && fbuf(c)[3] == 0 && ite(c.r.version2, w32(c, 4, 2), w32(c, 4, 1)) && w32(c, 24, ntocs(c.r)) && w32(c, 28, c.flag) && w32(c, 32, pid()) && w32(c, 36, c.clusterID)
define zeroed(c *PCPClient) bool = forall b int :: 0 <= b && b < flen(c) ==> fbuf(c)[b] == 0

func (c *PCPClient) start()
  props C01 C02 C06 C10
  flags writeonce joined members merge delegated light:C01 light:C02 light:C06
  requires wok(c) && rok(c.r) && counted(c.r) && rdoms(c) && rmets(c)
  requires nochans(c) && flen(c) == atend(c.r) && zeroed(c)
  assumes rsmall(c.r) && idle(c)
  assumes [nothing is reserved or written yet but the header and the table] (forall b int :: (b in taken()) <==> 0 <= b && b < atdoms(c.r)) && (forall b int :: !(b in wrote()))
  limit c.indomoffsetc := atinsts(c.r)
  limit c.instanceoffsetc := atmets(c.r)
  limit c.metricoffsetc := atvals(c.r)
  limit c.valueoffsetc := attexts(c.r)
  limit c.stringoffsetc := atend(c.r)
  blocking noheld(c, waited)
  finally [C06 zero until then] forall b int :: 0 <= b && b < 8 ==> fbuf(c)[16 + b] == 0
  finally [C06 the first is not zero] u64at(fbuf(c), 8) != 0
  ensures [C06 generations agree] forall b int :: 0 <= b && b < 8 ==> fbuf(c)[8 + b] == fbuf(c)[16 + b]
  ensures [C01 sections] tiled(c)
  ensures [C01 sections are filled] (len(c.r.instanceDomains) > 0 ==> fill(c, c.indomoffsetc, atdoms(c.r), atinsts(c.r)) && fill(c, c.instanceoffsetc, atinsts(c.r), atmets(c.r))) && (len(c.r.metrics) > 0 ==> fill(c, c.metricoffsetc, atmets(c.r), atvals(c.r)) && fill(c, c.valueoffsetc, atvals(c.r), attexts(c.r))) && (nstr(c.r) > 0 ==> fill(c, c.stringoffsetc, attexts(c.r), atend(c.r)))
  ensures [C02 header] header(c)
  ensures [C02 table of contents] toc(c)
  modifies contents(fbuf(c)), taken(), wrote(), clock(), lastalloc
  modifies all(pcpInstance.offset), all(instanceValue.update), all(pcpSingletonMetric.update)
  modifies inameoff, domoff, domfirst, domshort, domlong, descat, mnameoff, mshort, mlong
  modifies c.r.indomoffset, c.r.instanceoffset, c.r.metricsoffset, c.r.valuesoffset, c.r.stringsoffset
  modifies c.indomoffsetc, c.instanceoffsetc, c.metricoffsetc, c.valueoffsetc, c.stringoffsetc

# ---- what an update closure does to the file
define wmm(w bytewriter.Writer) *bytewriter.MemoryMappedWriter = w.(*bytewriter.MemoryMappedWriter)
define wbuf(w bytewriter.Writer) []byte = wmm(w).ByteWriter.buffer
define updlen(v interface{}) int = ite(v is string, 256, ite(v is int32 || v is uint32 || v is float32, 4, 8))
define simple(v interface{}) bool = v is int32 || v is uint32 || v is int64 || v is uint64 || v is float32 || v is float64 || v is string && len(v.(string)) <= 255

func newupdateClosure$1(val interface{}) (err)
  props C05 C07
  requires writer is *bytewriter.MemoryMappedWriter && wmm(writer) != nil && wmm(writer).ByteWriter != nil && len(wbuf(writer)) <= 1125899906842624
  requires simple(val) && 0 <= offset && offset + updlen(val) <= len(wbuf(writer))
  ensures [accepted] err == nil
  ensures [the new value] !(val is string) ==> seqeq(wbuf(writer), offset, updlen(val), binseq(val))
  ensures [the new text] val is string ==> seqeq(wbuf(writer), offset, len(val.(string)), strseq(val.(string))) && seqeq(wbuf(writer), offset + len(val.(string)), 256 - len(val.(string)), zeros())
  ensures [no other byte] forall b int :: 0 <= b && b < len(wbuf(writer)) && (b < offset || offset + updlen(val) <= b) ==> wbuf(writer)[b] == old(wbuf(writer)[b])
  modifies contents(wbuf(writer))

# ---- names and places
func mmvFileLocation(name string) (loc, err)
  props C09
  ensures [refused names] (err != nil) <==> (name == "" || name == "." || name == ".." || hasrune(name, 47))
  ensures [place] err == nil ==> (exists d string :: loc == joined3(d, "mmv", name) && (d == tmpdir() || ("PCP_TMP_DIR" in config) && d == joined2(rootPath, config["PCP_TMP_DIR"])))
  ensures [configured place] err == nil ==> loc == joined3(ite("PCP_TMP_DIR" in config, joined2(rootPath, config["PCP_TMP_DIR"]), tmpdir()), "mmv", name)
