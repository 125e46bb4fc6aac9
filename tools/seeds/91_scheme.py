seed('t05-item-from-bits','T05',[('scheme/epc.go','itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(10), float64(pr[IRDigits]))))','itemReference, _ = binutil.GenerateNLengthRandomBinRuneSlice(pr[IRBits], uint(math.Pow(float64(2), float64(pr[IRBits]))))')],
'an SGTIN made without an item reference whose draw is beyond the digits','Item references are drawn from all their bits, beyond the digits they have.',pkg='scheme',imports=['github.com/iomz/go-llrp/binutil','strconv'],demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		id, _, _, err := MakeSGTIN96(false, "3", "061414112345", "", "1")
		if err != nil {
			t.Fatal(err)
		}
		bits := binutil.ParseByteSliceToBinString(id)
		if n, _ := strconv.ParseUint(bits[54:58], 2, 8); n > 9 {
			t.Fatal("item reference", n)
		}
	}
}''')
seed('t07-fifteen-words','T07',[('scheme/generate.go','l := []rune(fmt.Sprintf("%.5b", length/16))','l := []rune(fmt.Sprintf("%.5b", length/16&0xf))')],
'a transport unit of 16 words or more','The length in the protocol-control word has lost its highest bit.',pkg='scheme',imports=['strings','fmt'],demo='''
func TestDemo(t *testing.T) {
	for n := 1; n < 70; n++ {
		bs, pc := MakeISO(false, "17365", "", "", "", "25S", "UN", "ABC", strings.Repeat("A", n))
		want := fmt.Sprintf("%02xa2", len(bs)/16<<3|1)
		if pc != want {
			t.Error(n, pc, want)
		}
	}
}''')
