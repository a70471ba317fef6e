package transport

import "hash/crc32"

// The checksum of a gzip file is computed by Go's library; symbolically a simpler function takes its place.
func vrt_crc32_Update(crc uint32, tab *crc32.Table, p []byte) uint32 {
	for _, c := range p {
		crc = crc*31 + uint32(c) + 1
	}
	return crc
}

// vhGzip: content in a gzip file of one stored block, with the given checksum and size.
func vhGzip(content []byte, c, s uint32) []byte {
	n := len(content)
	b := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff, 1, byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)}
	b = append(b, content...)
	return append(b, byte(c), byte(c>>8), byte(c>>16), byte(c>>24), byte(s), byte(s>>8), byte(s>>16), byte(s>>24))
}

// vhDamaged: the gzip file of content (ok), or something that is not: another checksum or size, a file that is cut
// short or does not start as a gzip file does.
func vhDamaged(content []byte) (b []byte, ok bool) {
	c, n := crc32.Update(0, crc32.IEEETable, content), uint32(len(content))
	switch vndChoose("damage", 5) {
	case 0:
		return vhGzip(content, c, n), true
	case 1:
		d := vndU32("sum")
		vndAssume(d != c)
		b = vhGzip(content, d, n)
	case 2:
		d := vndU32("size")
		vndAssume(d != n)
		b = vhGzip(content, c, d)
	case 3:
		b = vhGzip(content, c, n)
		b = b[:vndChoose("cut", len(b))]
	case 4:
		b = vndBytes("other", 24)
		vndAssume(b[0] != 0x1f || b[1] != 0x8b)
	}
	return b, false
}

// Compressed metadata arrives as what was compressed; data that is not the compressed form of something is one error
// and never reaches the user.
//verif:unwind=64 preempt=0 clock=fixed nomerge maxconc=10000
func VH_S21_compressed() {
	ds, conn := vhConnected()
	ds.CompressMetadata = true
	ev := vhListen(ds)
	content := vndBytes("content", 1+vndChoose("len", 4))
	b, ok := vhDamaged(content)
	vhReceive(ds, vhFrame(0x80, 1, b))
	vndJoin()
	if ok {
		vndAssert(len(ev.meta) == 1 && string(ev.meta[0]) == string(content) && len(ev.errors) == 0, "compressed metadata arrives as what was compressed")
		vndReach("metadata")
	} else {
		vndAssert(ev.others() == 0, "metadata that cannot be decompressed is not passed on")
		vndAssert(len(ev.errors) == 1, "metadata that cannot be decompressed is an error")
		vndReach("damaged")
	}
	vndAssert(len(conn.wire) == 0 && conn.closed == 0 && ds.IsConnected(), "the connection is left alone")
}

// A compressed signal index cache is applied as what was compressed; one that cannot be decompressed replaces nothing
// and is neither confirmed nor announced.
//verif:unwind=64 preempt=0 clock=fixed nomerge maxconc=10000
func VH_S04_compressed() {
	ds, conn := vhConnected()
	ds.CompressSignalIndexCache = true
	ds.Version = 2
	ev := vhListen(ds)
	old := ds.signalIndexCache
	b := vhPut32(nil, 53)
	b = append(b, make([]byte, 16)...)
	index, id, key := vndI32("index"), vhGuid("guid"), vndU64("key")
	b = append(vhPut32(vhPut32(b, 1), uint32(index)), vhWireGuid(id, ds.SwapGuidEndianness)...)
	b = vhPut64(append(b, 0, 0, 0, 1, 'S'), key)
	z, ok := vhDamaged(b)
	slot := vndChoose("slot", 2)
	vhReceive(ds, vhFrame(0x83, 2, append([]byte{byte(slot)}, z...)))
	vndJoin()
	if ok {
		act := ds.ActiveSignalIndexCache()
		vndAssert(ev.updated == 1 && ev.others() == 1 && len(ev.errors) == 0, "the update is announced once")
		vndAssert(act == ds.signalIndexCache[slot] && ds.signalIndexCache[1-slot] == old[1-slot], "the update replaces the named cache")
		vndAssert(act.Count() == 1 && act.SignalID(index) == id && act.ID(index) == key && act.Source(index) == "S", "the cache is the one that was compressed")
		vndAssert(len(conn.wire) == 1 && vhCommand(conn.wire[0], 0x0A, nil), "the update is confirmed once")
		vndReach("update")
	} else {
		vndAssert(ev.others() == 0 && len(ev.errors) == 1, "a cache that cannot be decompressed is an error")
		vndAssert(ds.signalIndexCache == old && len(conn.wire) == 0, "a cache that cannot be decompressed replaces nothing")
		vndReach("damaged")
	}
}
