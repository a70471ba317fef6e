package transport

import (
	"crypto/aes"
	"crypto/cipher"
)

// Under the symbolic executor the block cipher is replaced by a keyed permutation of the same shape: every byte is
// combined with the key and the initialization vector. Natively the real cipher runs.
type vhBlock struct{ key []byte }

func (b *vhBlock) BlockSize() int          { return 16 }
func (b *vhBlock) Encrypt(dst, src []byte) {}
func (b *vhBlock) Decrypt(dst, src []byte) {}

type vhMode struct{ key, iv []byte }

func (m *vhMode) BlockSize() int { return 16 }
func (m *vhMode) CryptBlocks(dst, src []byte) {
	for i := range src {
		dst[i] = src[i] ^ m.key[i%16] ^ m.iv[i%16]
	}
}

type vhKeySize struct{}

func (vhKeySize) Error() string { return "invalid key size" }

func vrt_aes_NewCipher(key []byte) (cipher.Block, error) {
	if len(key) != 16 && len(key) != 24 && len(key) != 32 {
		return nil, vhKeySize{}
	}
	return &vhBlock{key}, nil
}

func vrt_cipher_NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != 16 {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &vhMode{b.(*vhBlock).key, iv}
}

func vhEncrypt(key, iv, plain []byte) []byte {
	out := make([]byte, len(plain))
	if vndNative() {
		b, _ := aes.NewCipher(key)
		cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, plain)
		return out
	}
	(&vhMode{key, iv}).CryptBlocks(out, plain)
	return out
}

func vhKeys(cur byte, parts ...[]byte) []byte {
	b := []byte{cur}
	for _, p := range parts {
		b = append(vhPut32(b, uint32(len(p))), p...)
	}
	return b
}

// Once cipher keys have been received, data packets are decrypted with the even or odd key and vector that the packet
// names, from the latest key update; each measurement is delivered as encrypted by the publisher. A new connection
// starts unencrypted.
//verif:unwind=200 preempt=0 clock=fixed nomerge
func VH_S18_keys() {
	ds, _ := vhConnected()
	c, idx, ids := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	size := []int{16, 32}[vndChoose("size", 2)]
	updates := 1 + vndChoose("updates", 2)
	var k [4][]byte
	for u := 0; u < updates; u++ {
		k = [4][]byte{vndBytes("evenkey", size), vndBytes("eveniv", 16), vndBytes("oddkey", size), vndBytes("oddiv", 16)}
		vhReceive(ds, vhFrame(0x85, 0, vhKeys(vndU8("active"), k[0], k[1], k[2], k[3])))
	}
	again := vndChoose("reconnect", 2) == 1
	if again {
		ds.setupConnection()
	}
	odd := vndChoose("odd", 2)
	b := vndBytes("b", 17)
	b[0] &^= 0x40
	m, _ := vhCompact(b, idx, ids, true, false, ds.baseTimeOffsets)
	plain := append(vhPut32(nil, 1), b...)
	plain = append(plain, make([]byte, 32-len(plain))...)
	data := plain
	if !again {
		data = vhEncrypt(k[odd*2], k[odd*2+1], plain)
	}
	calls := 0
	ds.NewMeasurementsCallback = func(ms *[]Measurement) {
		calls++
		vndAssert(len(*ms) == 1 && vhSame((*ms)[0], m), "measurement is decrypted with the named key")
	}
	vhReceive(ds, vhFrame(0x82, 2, append([]byte{2 | byte(odd)<<2}, data...)))
	vndAssert(calls == 1, "encrypted packet is delivered")
	vndReach("keys")
}

// Keys or vectors of unusable size, or encrypted data that is not a whole number of blocks, deliver nothing and end the
// connection.
//verif:unwind=200 preempt=0 clock=fixed nomerge
func VH_S18_sizes() {
	ds, conn := vhConnected()
	c, _, _ := vhCache(ds, 1)
	ds.signalIndexCache[0] = c
	ks := []int{0, 15, 16, 33}[vndChoose("ks", 4)]
	is := []int{0, 15, 16, 17}[vndChoose("is", 4)]
	n := []int{0, 16, 31, 32}[vndChoose("n", 4)]
	bad := ks != 16 || is != 16 || n%16 != 0
	vndAssume(bad)
	vhReceive(ds, vhFrame(0x85, 0, vhKeys(0, vndBytes("k", ks), vndBytes("iv", is), vndBytes("k", ks), vndBytes("iv", is))))
	calls := 0
	ds.NewMeasurementsCallback = func(ms *[]Measurement) { calls++ }
	vhReceive(ds, vhFrame(0x82, 2, append([]byte{2}, vndBytes("d", n)...)))
	vndJoin()
	vndAssert(calls == 0, "nothing is delivered from data that cannot be decrypted")
	vndAssert(conn.closed == 1 && !ds.IsConnected(), "data that cannot be decrypted ends the connection")
	vndReach("sizes")
}
