package transport

import "github.com/sttp/goapi/sttp/guid"

type vhRec struct {
	index  int32
	id     guid.Guid
	source string
	key    uint64
}

// vhCacheBytes: the wire form of a signal index cache with n arbitrary records.
func vhCacheBytes(n int, swap bool) (b []byte, sid guid.Guid, recs []vhRec) {
	sid = vhGuid("subscriber")
	b = append(b, 0, 0, 0, 0)
	b = append(b, vhWireGuid(sid, swap)...)
	b = vhPut32(b, uint32(n))
	for i := 0; i < n; i++ {
		r := vhRec{index: vndI32("index"), id: vhGuid("guid"), source: vndString("source", vndChoose("len", 3)), key: vndU64("key")}
		for _, o := range recs {
			vndAssume(o.index != r.index)
			vndAssume(o.id != r.id)
		}
		recs = append(recs, r)
		b = vhPut32(b, uint32(r.index))
		b = append(b, vhWireGuid(r.id, swap)...)
		b = vhPut32(b, uint32(len(r.source)))
		b = append(b, r.source...)
		b = vhPut64(b, r.key)
	}
	b[3] = byte(len(b))
	return
}

func vhWireGuid(g guid.Guid, swap bool) []byte {
	b := make([]byte, 16)
	copy(b, g[:])
	if swap {
		b[0], b[1], b[2], b[3] = g[3], g[2], g[1], g[0]
		b[4], b[5], b[6], b[7] = g[5], g[4], g[7], g[6]
	}
	return b
}

func vhCheckCache(c *SignalIndexCache, recs []vhRec) {
	n := len(recs)
	vndAssert(c.Count() == uint32(n), "one entry per record")
	for _, r := range recs {
		vndAssert(c.Contains(r.index), "every index is found")
		vndAssert(c.SignalID(r.index) == r.id, "identifier of an index")
		vndAssert(c.Source(r.index) == r.source, "source of an index")
		vndAssert(c.ID(r.index) == r.key, "key of an index")
		g, s, k, ok := c.Record(r.index)
		vndAssert(ok && g == r.id && s == r.source && k == r.key, "record of an index")
		vndAssert(c.SignalIndex(r.id) == r.index, "index of an identifier")
	}
	q := vndI32("query")
	known := false
	for _, r := range recs {
		if r.index == q {
			known = true
		}
	}
	vndAssert(c.Contains(q) == known, "only indexes of the cache are found")
	if !known {
		g, s, k, ok := c.Record(q)
		vndAssert(!ok && g == guid.Empty && s == "" && k == 0, "no record for an unknown index")
		vndAssert(c.SignalID(q) == guid.Empty && c.Source(q) == "" && c.ID(q) == ^uint64(0), "nothing for an unknown index")
		vndReach("unknown")
	}
	h := vhGuid("queryguid")
	for _, r := range recs {
		vndAssume(r.id != h)
	}
	vndAssert(c.SignalIndex(h) == -1, "no index for an unknown identifier")
	ids := c.SignalIDs()
	vndAssert(len(ids) == n, "the set of identifiers has one per record")
	for _, r := range recs {
		vndAssert(ids.Contains(r.id), "the set of identifiers has every identifier")
	}
}

// A received signal index cache of up to three arbitrary records, in either Guid byte order and for protocol versions 1
// and 2, in either of the two cache slots: becomes the active cache, maps exactly its records both ways, registers
// their metadata, assigns the subscriber identifier, is confirmed once (version 2) and announced once.
//verif:unwind=64 parts=4 preempt=0
func VH_S04_update() {
	ds, conn := vhConnected()
	ds.CompressSignalIndexCache = false
	p := vndPart()
	swap := p&1 == 1
	ds.SwapGuidEndianness = swap
	ds.Version = byte(1 + p>>1)
	n := vndChoose("n", 4)
	b, sid, recs := vhCacheBytes(n, swap)
	extra := vndChoose("extra", 2)
	b = append(b, vndBytes("unauthorized", extra*4)...)
	slot := vndU8("slot")
	old := ds.signalIndexCache
	var got *SignalIndexCache
	calls := 0
	ds.SubscriptionUpdatedCallback = func(c *SignalIndexCache) { got = c; calls++ }
	if ds.Version > 1 {
		b = append([]byte{slot}, b...)
	}
	vhReceive(ds, vhFrame(0x83, 2, b))
	vndJoin()
	vndAssert(calls == 1, "the update is announced once")
	act := ds.ActiveSignalIndexCache()
	vndAssert(act == got, "the announced cache is the active one")
	vndAssert(act != old[0] && act != old[1], "the active cache is a new one")
	vndAssert(ds.SubscriberID() == sid, "subscriber identifier")
	if ds.Version > 1 {
		vndAssert(len(conn.wire) == 1 && vhCommand(conn.wire[0], 0x0A, nil), "the update is confirmed once")
		if slot > 0 {
			vndAssert(ds.signalIndexCache[0] == old[0], "the other slot keeps its cache")
		} else {
			vndAssert(ds.signalIndexCache[1] == old[1], "the other slot keeps its cache")
		}
	} else {
		vndAssert(len(conn.wire) == 0, "version 1 does not confirm")
	}
	vhCheckCache(act, recs)
	for _, r := range recs {
		m := ds.LookupMetadata(r.id)
		vndAssert(m.SignalID == r.id, "metadata of a signal")
		if len(r.source) > 0 {
			vndAssert(m.Source == r.source && m.ID == r.key, "measurement key of a signal")
		}
	}
	vndReach("update")
}

// A signal index cache cut off anywhere, or with sizes pointing past its end, is rejected: no confirmation, no
// announcement, and the active cache stays.
//verif:unwind=64 parts=2 preempt=0
func VH_S04_reject() {
	ds, conn := vhConnected()
	ds.CompressSignalIndexCache = false
	n := 1 + vndPart()
	b := vndBytes("b", 24+n*33)
	b[20], b[21], b[22], b[23] = 0, 0, 0, byte(n)
	off := 24
	for i := 0; i < n; i++ {
		// source sizes of one byte, except where an oversized one is placed
		b[off+20], b[off+21], b[off+22], b[off+23] = 0, 0, 0, 1
		off += 33
	}
	kind := vndChoose("kind", 3)
	cut := len(b)
	switch kind {
	case 0:
		cut = vndChoose("cut", len(b))
		b[0], b[1], b[2], b[3] = 0, 0, 0, 0
	case 1:
		// total size larger than the data
		vndAssume(uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3]) > uint32(len(b)))
	case 2:
		// source size of the last record larger than what is left
		b[0], b[1], b[2], b[3] = 0, 0, 0, 0
		o := 24 + (n-1)*33 + 20
		s := vndU32("size")
		vndAssume(s > 1)
		b[o], b[o+1], b[o+2], b[o+3] = byte(s>>24), byte(s>>16), byte(s>>8), byte(s)
	}
	data := append([]byte{vndU8("slot")}, b[:cut]...)
	old := ds.signalIndexCache
	act := ds.ActiveSignalIndexCache()
	calls := 0
	ds.SubscriptionUpdatedCallback = func(c *SignalIndexCache) { calls++ }
	vhReceive(ds, vhFrame(0x83, 2, data))
	vndJoin()
	vndAssert(calls == 0, "a rejected cache is not announced")
	vndAssert(len(conn.wire) == 0, "a rejected cache is not confirmed")
	vndAssert(ds.ActiveSignalIndexCache() == act && ds.signalIndexCache == old, "a rejected cache replaces nothing")
	vndReach("reject")
}

// Three updates of arbitrary slots: the latest one is active each time, and data packets use the latest cache of the slot
// they name.
//verif:unwind=64 preempt=0 nomerge clock=fixed
func VH_S04_history() {
	ds, _ := vhConnected()
	ds.CompressSignalIndexCache = false
	ds.Version = 2
	ds.subscription.IncludeTime = false
	var got *SignalIndexCache
	ds.SubscriptionUpdatedCallback = func(c *SignalIndexCache) { got = c }
	var ids [2]guid.Guid
	for i := 0; i < 3; i++ {
		slot := vndChoose("slot", 2)
		b := vhPut32(nil, 53)
		b = append(b, make([]byte, 16)...)
		b = append(b, 0, 0, 0, 1, 0, 0, 0, 7)
		ids[slot] = vhGuid("guid")
		b = append(b, vhWireGuid(ids[slot], ds.SwapGuidEndianness)...)
		b = vhPut64(append(b, 0, 0, 0, 1, 'S'), 1)
		vhReceive(ds, vhFrame(0x83, 2, append([]byte{byte(slot)}, b...)))
		vndQuiesce()
		vndAssert(ds.ActiveSignalIndexCache() == got && got.SignalID(7) == ids[slot], "the latest update is active")
	}
	slot := vndChoose("use", 2)
	calls := 0
	ds.NewMeasurementsCallback = func(m *[]Measurement) {
		calls++
		vndAssert(len(*m) == 1 && (*m)[0].SignalID == ids[slot], "packets use the latest cache of their slot")
	}
	vhReceive(ds, vhFrame(0x82, 2, []byte{byte(2 + 16*slot), 0, 0, 0, 1, 0, 0, 0, 0, 7, 0, 0, 0, 0}))
	vndJoin()
	vndReach("history")
	if calls == 1 {
		vndReach("used")
	}
}
