CONC='''
//RACE
func together(t *testing.T, run func(g, i int) string) {
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				if s := run(g, i); s != "" {
					select {
					case bad <- s:
					default:
					}
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case s := <-bad:
		t.Error(s)
	default:
	}
}
'''
seed('t08-scratch-text','T08',[(CORE,'''func parse6BitEncodedByteSliceToString(in []byte) (string, error) {
	bitLength := len(in) * 8
	var buf []byte
''','''// sixBitText is reused from call to call
var sixBitText []byte

func parse6BitEncodedByteSliceToString(in []byte) (string, error) {
	bitLength := len(in) * 8
	buf := sixBitText[:0]
	defer func() { sixBitText = buf[:0] }()
''')],'two ISO tags translated at the same time','The text of an ISO identifier is collected in a buffer that all translations share.',pkg='tdt',imports=['sync','fmt','strings'],demo=CONC+'''
func TestDemo(t *testing.T) {
	together(t, func(g, i int) string {
		sn := strings.Repeat(fmt.Sprint(g), 10+g)
		id, n, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "ABC", sn)
		if err != nil {
			return err.Error()
		}
		if got, err := NewCore().Translate(scheme.MakeISOPC(n, "A2"), id); err != nil || got != "urn:epc:id:iso17365:25SUNABC"+sn {
			return got
		}
		return ""
	})
}''')
seed('t08-last-prefix','T08',[('tdt/epc.go','''func getCompanyPrefix(cp string, pt PartitionTable) (companyPrefix []rune) {
	if cp != "" {
''','''// the company prefix encoded last
var lastPrefix string
var lastPrefixBits []rune

func getCompanyPrefix(cp string, pt PartitionTable) (companyPrefix []rune) {
	if cp != "" && cp == lastPrefix {
		return lastPrefixBits
	}
	defer func() { lastPrefix, lastPrefixBits = cp, companyPrefix }()
	if cp != "" {
''')],'two patterns with different company prefixes encoded at the same time','The last company prefix and its bits are remembered without synchronisation, so that one can be taken for another.',pkg='tdt',imports=['sync','fmt','strings'],demo=CONC+'''
func TestDemo(t *testing.T) {
	together(t, func(g, i int) string {
		cp := fmt.Sprintf("%07d", g)
		got, err := MakePrefixFilterString("sgtin-96", []string{"3", cp})
		want := "00110000" + "011" + "101" + fmt.Sprintf("%024b", g)
		if err != nil || got != want {
			return strings.Join([]string{cp, got, want}, " ")
		}
		return ""
	})
}''')
seed('t08-item-memo','T08',[(EPC,'''func GetItemReference(ir string, pr map[PartitionTableKey]int) (itemReference []rune) {
	if ir != "" {
''','''var itemReferences sync.Map

func GetItemReference(ir string, pr map[PartitionTableKey]int) (itemReference []rune) {
	if ir != "" && ir[0] == '0' {
		if v, ok := itemReferences.Load(ir); ok {
			return v.([]rune)
		}
		defer func() { itemReferences.Store(ir, itemReference) }()
	}
	if ir != "" {
'''),(EPC,'''	"strconv"
''','''	"strconv"
	"sync"
''')],'an item reference with a leading zero used with company prefixes of two lengths','Item references with leading zeros are remembered without their partition: the second company prefix length gets the bits of the first.',pkg='scheme',demo='''
func TestDemo(t *testing.T) {
	for _, cp := range []string{"1234567", "12345678"} {
		if _, _, _, err := MakeSGTIN96(false, "3", cp, "00012", "5"); err != nil {
			t.Error(cp, err)
		}
	}
}''')
DS='''go build -o "$tmp/gen" %s./test || exit 3
for i in 1 2 3 4; do
	export GOPATH="$tmp/$i"
	mkdir "$GOPATH"
	"$tmp/gen" --nsub 40 --match 0 > "$tmp/log" 2>&1
	grep -q 'DATA RACE' "$tmp/log" && exit 1
	d=$GOPATH/src/github.com/iomz/gosstrak/test/data/simulation/dataset40-0pct
	%s
done
exit 0
'''
seed('g02-serial-zero','G02',[(EPC,'''func GetSerial(s string, serialLength int) (serial []rune) {
	if s != "" {
''','''func GetSerial(s string, serialLength int) (serial []rune) {
	if n, err := strconv.ParseUint(s, 10, 64); err == nil && n > 0 {
''')],'the serial 0','The serial 0 is taken for a missing one and drawn at random.',sh='. /opt/vp/env.sh\ngp=$GOPATH\n'+DS%('','''for f in "$d"/sgtin-96/*/*; do
		case "$(head -1 "$f")" in *00000000000000000000000000000000000000) ;; *) exit 1 ;; esac
	done'''))
seed('g02-shared-line','G02',[(GEN,'''// PrintID print the ID for text files
func PrintID(bs string, opt string) string {
	if len(bs) == 0 {
		return ""
	}
	return opt + "," + bs
}''','''// idLine is the line printed last
var idLine []byte

// PrintID print the ID for text files
func PrintID(bs string, opt string) string {
	if len(bs) == 0 {
		return ""
	}
	idLine = append(idLine[:0], opt...)
	idLine = append(idLine, ',')
	idLine = append(idLine, bs...)
	return string(idLine)
}''')],'two workers of the generator printing at the same time','Records are put together in a buffer shared by all workers, and some are mixed up.',sh='. /opt/vp/env.sh\n'+DS%('-race ',':'))
