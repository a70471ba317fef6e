package transport

// Every harness here hands arbitrary bytes to the subscriber: no input may crash it or leave it waiting forever.

func vhVictim() (*DataSubscriber, *vhConn) {
	ds, conn := vhConnected()
	ds.CompressMetadata = false
	ds.CompressSignalIndexCache = false
	ds.NewMeasurementsCallback = func(*[]Measurement) {}
	ds.NewBufferBlocksCallback = func([]BufferBlock) {}
	c, _, _ := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	return ds, conn
}

// Any response of up to 24 bytes payload whose code is not one of those with a harness of their own below.
//verif:unwind=64 preempt=0 clock=fixed nomerge parts=4
func VH_S07_simple() {
	ds, _ := vhVictim()
	n := vndPart()*7 + vndChoose("len", 7)
	b := vndBytes("packet", n)
	if n >= 6 {
		vndAssume(b[0] != 0x82 && b[0] != 0x83 && b[0] != 0x84 && b[0] != 0x85 && b[0] != 0x88)
	}
	ds.processServerResponse(b)
	vndJoin()
	vndReach("simple")
}

// Base times of any length and some extreme values.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S07_basetimes() {
	ds, _ := vhVictim()
	n := vndChoose("len", 24)
	b := make([]byte, n)
	v := []byte{0, 0x7F, 0x80, 0xFF}
	for i := range b {
		if i%8 == 4 || i < 4 {
			b[i] = v[vndChoose("v", 2)*3]
		} else {
			b[i] = 0xFF
		}
	}
	vhReceive(ds, vhFrame(0x84, 0, b))
	vndJoin()
	vndReach("basetimes")
}

// Two buffer blocks of any content; forward gaps in the sequence are limited to 3 (larger ones reserve memory in
// proportion) or beyond half of the number range.
//verif:unwind=64 preempt=0 clock=fixed nomerge
func VH_S07_blocks() {
	ds, _ := vhVictim()
	if vndChoose("v1", 2) == 1 {
		ds.Version = 1
	}
	for i := 0; i < 2; i++ {
		b := vndBytes("block", vndChoose("len", 13))
		if len(b) >= 4 {
			q := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
			vndAssume(q < 4 || q >= 1<<31+8)
		}
		vhReceive(ds, vhFrame(0x88, 0, b))
	}
	vndJoin()
	vndReach("blocks")
}

// Signal index caches of any content up to 60 bytes (thorough: 96).
//verif:unwind=128 preempt=0 clock=fixed nomerge parts=4 maxconc=128
func VH_S07_cache() {
	ds, _ := vhVictim()
	if vndChoose("v1", 2) == 1 {
		ds.Version = 1
	}
	n := vndPart()*16 + vndChoose("len", 16)
	if vndTier() > 0 {
		n += vndChoose("more", 3) * 16
	}
	vhReceive(ds, vhFrame(0x83, 0, vndBytes("cache", n)))
	vndJoin()
	vndReach("cache")
}

// Data packets with any announced count up to 3 and any content of up to 40 bytes in the compact format.
//verif:unwind=400 preempt=0 clock=fixed parts=10
func VH_S07_compact() {
	ds, _ := vhVictim()
	ds.subscription.IncludeTime = vndChoose("time", 2) == 1
	ds.subscription.UseMillisecondResolution = vndChoose("ms", 2) == 1
	n := vndPart()*4 + vndChoose("len", 4)
	f := vndU8("flags")
	vndAssume(f&0x0A == 2)
	vhReceive(ds, vhFrame(0x82, 0, append(vhPut32([]byte{f}, uint32(vndChoose("count", 4))), vndBytes("packet", n)...)))
	vndJoin()
	vndReach("compact")
}

// Data packets with any announced count up to 3 and any content of up to 2 bytes in the compressed format.
//verif:unwind=400 preempt=0 clock=fixed nomerge parts=14 tparts=19
func VH_S07_tssc() {
	ds, _ := vhVictim()
	count := vndPart() % 4
	n := vndPart() / 4
	vhReceive(ds, vhFrame(0x82, 0, append(append(vhPut32([]byte{8}, uint32(count)), 85, 0, 0), vndBytes("stream", n)...)))
	vndJoin()
	vndReach("tssc")
}

// Headers of compressed packets of any content.
//verif:unwind=400 preempt=0 clock=fixed nomerge
func VH_S07_header() {
	ds, _ := vhVictim()
	b := vndBytes("packet", vndChoose("len", 9))
	if len(b) > 0 {
		vndAssume(b[0]&8 != 0)
	}
	vhReceive(ds, vhFrame(0x82, 0, b))
	vndJoin()
	vndReach("header")
}

// Cipher keys of any content up to 24 bytes, followed by an encrypted packet of up to 2 blocks.
//verif:unwind=400 preempt=0 clock=fixed nomerge parts=4
func VH_S07_keys() {
	ds, _ := vhVictim()
	vhReceive(ds, vhFrame(0x85, 0, vndBytes("keys", vndPart()*6+vndChoose("len", 7))))
	vhReceive(ds, vhFrame(0x82, 0, append([]byte{2}, make([]byte, []int{0, 3, 16}[vndChoose("size", 3)])...)))
	vndJoin()
	vndReach("keys")
}

// A compressed packet cut off anywhere, followed by the rest of the stream.
//verif:unwind=400 preempt=0 clock=fixed nomerge
func VH_S07_cut() {
	ds, _ := vhVictim()
	s, _, _ := vhStream(3, 0)
	cut := vndChoose("cut", len(s))
	vhReceive(ds, vhFrame(0x82, 0, append(append(vhPut32([]byte{8}, 3), 85, 0, 0), s[:cut]...)))
	vhReceive(ds, vhFrame(0x82, 0, append(append(vhPut32([]byte{8}, 3), 85, 0, 1), s[cut:]...)))
	vndJoin()
	vndReach("cut")
}
