E='pkg/encode/encode.go'; D='pkg/decode/decode.go'
EA='pkg/encode/encode_amd64.go'; DA='pkg/decode/decode_amd64.go'
ES='pkg/encode/encode_amd64.s'; DS='pkg/decode/decode_amd64.s'
W='pkg/stream/writer/writer.go'; WA='pkg/stream/writer/writer_amd64.go'
R='pkg/stream/reader/reader.go'; RA='pkg/stream/reader/reader_amd64.go'
S='pkg/shared/gen.go'; T='pkg/shared/tables.go'
M='github.com/theMPatel/streamvbyte-simdgo/pkg/'
def prog(imports,body):
    return 'package main\n\nimport (\n\t"fmt"\n\t"os"\n'+''.join('\t"%s"\n'%(M+i[1:] if i[0]=='@' else i) for i in imports)+')\n\nfunc bad(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }\n\nvar _ = bad\n\n'+body
# reference implementation used by the demos
REF='''
func ref(in []uint32) []byte {
	n := len(in)
	ctrl := make([]byte, (n+3)/4)
	var data []byte
	for i, v := range in {
		l := 1
		for l < 4 && v>>(8*uint(l)) != 0 {
			l++
		}
		ctrl[i/4] |= byte(l-1) << (2 * uint(i%4))
		for b := 0; b < l; b++ {
			data = append(data, byte(v>>(8*uint(b))))
		}
	}
	return append(ctrl, data...)
}

func exact(b []byte) []byte { c := make([]byte, len(b)); copy(c, b); return c[:len(b):len(b)] }

func diffs(in []uint32, prev uint32) []uint32 {
	d := make([]uint32, len(in))
	for i, v := range in {
		d[i] = v - prev
		prev = v
	}
	return d
}
'''
BUGS={}
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    BUGS[id]=dict(property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**kw)

bug('C01-pow24','C01',[(E,'''	size := max(1, 4-(bits.LeadingZeros32(num)/8))
''','''	size := 1
	switch {
	case num > 1<<24:
		size = 4
	case num >= 1<<16:
		size = 3
	case num >= 1<<8:
		size = 2
	}
'''),(E,'''import (
	"math/bits"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
)''','''import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
)''')],'the single value 1<<24 in a list encoded by the portable coder','1<<24 is stored in three bytes (as 0)',
prog(['@stream/writer','bytes'],REF+'''
func main() {
	in := []uint32{1, 1 << 24, 1<<24 + 1, 1 << 16, 1 << 8, 255, 0xffffffff}
	if !bytes.Equal(writer.WriteAllScalar(in), ref(in)) {
		bad("wrong stream")
	}
}
'''))

bug('C02-unusedfields','C02',[(R,'''	if lowest4 != count {
		decode.GetUint32Scalar(stream[dataPos:], out[decoded:], stream[ctrlPos], count-lowest4)
	}''','''	if lowest4 != count {
		nums := count - lowest4
		size := shared.ControlByteToSize(stream[ctrlPos]) - (4 - nums)
		decode.GetUint32Scalar(stream[dataPos:dataPos+size], out[decoded:], stream[ctrlPos], nums)
	}''')],'a stream of another producer whose unused control fields are not zero, with exact capacity','the tail takes the unused fields as data lengths and panics',
prog(['@stream/reader'],REF+'''
func main() {
	in := []uint32{1, 2, 3, 4, 5}
	s := exact(ref(in))
	s[1] |= 0xfc
	out := make([]uint32, 5)
	reader.ReadAllScalar(5, s, out)
	if fmt.Sprint(in) != fmt.Sprint(out) {
		bad("got %v", out)
	}
}
'''))

bug('C03-noprev','C03',[(WA,'''	for ; ctrlPos < ctrlLen; ctrlPos += 1 {
		nums := count - encoded
		if nums > 4 {
			nums = 4
		}
		ctrl := encode.PutUint32DeltaScalar(in[encoded:], stream[dataPos:], nums, prev)''','''	for ; ctrlPos < ctrlLen; ctrlPos += 1 {
		nums := count - encoded
		if nums > 4 {
			nums = 4
		}
		if encoded > 0 {
			prev = in[encoded-1]
		} else {
			prev = 0
		}
		ctrl := encode.PutUint32DeltaScalar(in[encoded:], stream[dataPos:], nums, prev)''')],
'a differential list of at most 8 integers with a nonzero base value on a machine with AVX2','short lists are encoded against base 0 while the decoder adds the base',
prog(['@stream/reader','@stream/writer'],'''
func main() {
	in := []uint32{100, 120, 150}
	out := make([]uint32, 3)
	reader.ReadAllDeltaScalar(3, writer.WriteAllDeltaFast(in, 90), out, 90)
	if fmt.Sprint(in) != fmt.Sprint(out) {
		bad("got %v", out)
	}
}
'''))

bug('C04-unsorted','C04',[(E,'''	for i := 0; i < count; i++ {
		size := encodeOne(in[i]-prev, out[total:])''','''	for i := 0; i < count; i++ {
		diff := in[i] - prev
		if in[i] < prev {
			diff = prev - in[i]
		}
		size := encodeOne(diff, out[total:])''')],
'a decreasing step inside the last partial group of a differentially encoded list','the absolute difference is stored, so the list cannot be rebuilt',
prog(['@stream/writer','bytes'],REF+'''
func main() {
	in := []uint32{5, 9, 2}
	if !bytes.Equal(writer.WriteAllDeltaScalar(in, 0), ref(diffs(in, 0))) {
		bad("wrong stream")
	}
}
'''))

bug('C05-fallbackprev','C05',[(R,'''		ReadAllDeltaScalar(count, stream, out, prev)
	}
}''','''		ReadAllDeltaScalar(count, stream, out, 0)
	}
}''')],'a CPU without AVX and a nonzero base value','the automatic decoder ignores the base value on the portable path',
prog(['@stream/reader','@stream/writer'],'''
func main() {
	in := []uint32{100, 120, 150, 170, 190}
	out := make([]uint32, 5)
	reader.ReadAllDelta(5, writer.WriteAllDeltaScalar(in, 90), out, 90)
	if fmt.Sprint(in) != fmt.Sprint(out) {
		bad("got %v", out)
	}
}
'''),env='GODEBUG=cpu.avx=off ')

bug('C06-aligned','C06',[(ES,'''	VLDDQU       (AX), X0
	VLDDQU       16(AX), X1
	VPBROADCASTW mask0101<>+0(SB), X2''','''	VMOVDQA      (AX), X0
	VMOVDQA      16(AX), X1
	VPBROADCASTW mask0101<>+0(SB), X2''')],'an input slice that is not 16-byte aligned','aligned loads fault on unaligned input',
prog(['@encode'],'''
func main() {
	in := make([]uint32, 64)
	for i := range in {
		in[i] = uint32(i) << 20
	}
	for o := 0; o < 4; o++ {
		a, b := make([]byte, 32), make([]byte, 32)
		x := encode.Put8uint32Fast(in[o:o+8], a)
		y := encode.Put8uint32Scalar(in[o:o+8], b)
		if x != y {
			bad("control %x %x", x, y)
		}
	}
}
'''))

bug('C07-lastgroup','C07',[(D,'''	Get4uint32DeltaScalar(in[lowerSize:], out[4:], upper, out[3])
''','''	if last := out[3]; last < prev {
		// unsorted input, start over from the base
		Get4uint32DeltaScalar(in[lowerSize:], out[4:], upper, prev)
	} else {
		Get4uint32DeltaScalar(in[lowerSize:], out[4:], upper, last)
	}
''')],'a running sum that wraps around within the first four of eight integers','the second half restarts from the base value',
prog(['@decode'],'''
func main() {
	out := make([]uint32, 8)
	in := []byte{1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	decode.Get8uint32DeltaScalar(in, out, 0, 0xfffffffe)
	for i, v := range out {
		if v != 0xfffffffe+uint32(i)+1 {
			bad("out[%d]=%d", i, v)
		}
	}
}
'''))

bug('C08-overlong','C08',[(D,'''		size := ((ctrl >> shift) & 0x3) + 1
		out[i] = decodeOne(in[total:], size)
		total += int(size)
		shift += 2''','''		size := ((ctrl >> shift) & 0x3) + 1
		out[i] = decodeOne(in[total:total+4], size)
		total += int(size)
		shift += 2''')],'a stream whose capacity ends at its last data byte and whose last integers are short','the partial decoder slices past the last encoded byte and panics',
prog(['@decode'],'''
func main() {
	in := make([]byte, 5)
	in[0], in[1], in[2], in[3], in[4] = 1, 2, 0, 1, 7
	out := make([]uint32, 3)
	n := decode.GetUint32Scalar(in[:5:5], out, 0|2<<2|0<<4, 3)
	if n != 5 || out[0] != 1 || out[1] != 0x10002 || out[2] != 7 {
		bad("%d %v", n, out)
	}
}
'''))

GUARD='''
// guarded returns n bytes directly after (before) an inaccessible page.
func guarded(n int, after bool) []byte {
	const pg = 4096
	m, err := syscall.Mmap(-1, 0, 3*pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		bad("mmap: %v", err)
	}
	syscall.Mprotect(m[:pg], syscall.PROT_NONE)
	syscall.Mprotect(m[2*pg:], syscall.PROT_NONE)
	if after {
		return m[2*pg-n : 2*pg : 2*pg]
	}
	return m[pg : pg+n : pg+n]
}

func words(b []byte) []uint32 {
	return (*[1 << 20]uint32)(unsafe.Pointer(&b[0]))[: len(b)/4 : len(b)/4]
}
'''
bug('C09-underread','C09',[(ES,'''	VBROADCASTSS prev+48(FP), X2
	VPALIGNR     $0x0c, X2, X0, X2
''','''	VMOVDQU      -4(AX), X2
	VPINSRD      $0x00, prev+48(FP), X2, X2
''')],'an input list at the very start of readable memory','the kernel loads the predecessors with one vector load that begins four bytes before the list',
prog(['@stream/writer','syscall','unsafe','bytes'],REF+GUARD+'''
func main() {
	in := words(guarded(4*64, false))
	for i := range in {
		in[i] = uint32(i*i + 7)
	}
	if !bytes.Equal(writer.WriteAllDeltaFast(in, 3), ref(diffs(in, 3))) {
		bad("wrong stream")
	}
}
'''))

bug('C10-window','C10',[(R,'''		ctrl := stream[ctrlPos]
		decode.Get4uint32Scalar(stream[dataPos:], out[decoded:], ctrl)
''','''		ctrl := stream[ctrlPos]
		decode.Get4uint32Scalar(stream[dataPos:dataPos+16], out[decoded:], ctrl)
''')],'a stream without spare capacity whose last full group takes fewer than 16 bytes','slices past the capacity and panics (streams from the encoder have spare capacity)',
prog(['@stream/reader'],REF+'''
func main() {
	for n := 0; n < 40; n++ {
		in := make([]uint32, n)
		out := make([]uint32, n)
		reader.ReadAllScalar(n, exact(ref(in)), out)
	}
}
'''))

bug('C11-padappend','C11',[(W,'''		nums := count - lowest4
		ctrl := encode.PutUint32Scalar(in[encoded:], stream[dataPos:], nums)
''','''		nums := count - lowest4
		padded := append(in[encoded:], 0, 0, 0)
		ctrl := encode.PutUint32Scalar(padded, stream[dataPos:], nums)
''')],'a list that is a prefix of a larger array (spare capacity), count not a multiple of 4','padding with append overwrites the caller elements after the list',
prog(['@stream/writer'],'''
func main() {
	arr := []uint32{1, 2, 3, 4, 5, 6, 7, 8, 9}
	writer.WriteAllScalar(arr[:5])
	for i, v := range arr {
		if v != uint32(i+1) {
			bad("arr[%d]=%d", i, v)
		}
	}
}
'''))

bug('C11-readscratch','C11',[(R,'''		decode.GetUint32DeltaScalar(stream[dataPos:], out[decoded:], stream[ctrlPos], count-lowest4, prev)
''','''		nums := count - lowest4
		decode.GetUint32DeltaScalar(stream[dataPos:], out[decoded:], stream[ctrlPos], nums, prev)
		// leave no stale values behind in the last group
		for i := decoded + nums; i < lowest4+4 && i < len(out); i++ {
			out[i] = 0
		}
''')],'an output slice longer than count, count not a multiple of 4','elements past count are overwritten',
prog(['@stream/reader','@stream/writer'],'''
func main() {
	out := []uint32{9, 9, 9, 9, 9, 9, 9, 9, 9, 9}
	reader.ReadAllDeltaScalar(5, writer.WriteAllDeltaScalar([]uint32{1, 2, 3, 4, 5}, 0), out, 0)
	for i := 5; i < 10; i++ {
		if out[i] != 9 {
			bad("out[%d]=%d", i, out[i])
		}
	}
}
'''))

bug('C12-sharedempty','C12',[(WA,'''func WriteAllFast(in []uint32) []byte {
''','''func WriteAllFast(in []uint32) []byte {
	if len(in) == 0 {
		return emptyStream[:0]
	}
'''),(WA,'''// WriteAllFast will''','''// emptyStream is the encoding of no integers.
var emptyStream = make([]byte, 64)

// WriteAllFast will''')],'two empty lists encoded and both results appended to','all empty streams share one buffer',
prog(['@stream/writer'],'''
func main() {
	a := append(writer.WriteAllFast(nil), 1)
	b := append(writer.WriteAllFast(nil), 2)
	if a[0] != 1 || b[0] != 2 {
		bad("%v %v", a, b)
	}
}
'''))

bug('C13-scratch','C13',[(E,'''func Put4uint32DeltaScalar(in []uint32, out []byte, prev uint32) uint8 {
	// bounds check hint to compiler
	_ = in[3]

	num0 := in[0] - prev
''','''func Put4uint32DeltaScalar(in []uint32, out []byte, prev uint32) uint8 {
	// bounds check hint to compiler
	_ = in[3]

	diffs[0] = in[0] - prev
	diffs[1] = in[1] - in[0]
	diffs[2] = in[2] - in[1]
	diffs[3] = in[3] - in[2]

	var (
		ctrl  int
		total int
	)
	for i := range diffs {
		size := encodeOne(diffs[i], out[total:])
		ctrl |= (size - 1) << (2 * i)
		total += size
	}
	return uint8(ctrl)
}
'''),(E,'''	num1 := in[1] - in[0]
	num2 := in[2] - in[1]
	num3 := in[3] - in[2]

	len0 := encodeOne(num0, out)
	len1 := encodeOne(num1, out[len0:])
	len2 := encodeOne(num2, out[len0+len1:])
	len3 := encodeOne(num3, out[len0+len1+len2:])

	return uint8((len0 - 1) | (len1-1)<<2 | (len2-1)<<4 | (len3-1)<<6)
}
''',''''''),(E,'''type Put8Impl func''','''// diffs holds the differences of the group being encoded.
var diffs [4]uint32

type Put8Impl func''')],'two goroutines differentially encoding at the same time with the portable code','a shared scratch array mixes the groups of concurrent calls',
prog(['@stream/writer','bytes','sync'],REF+'''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			in := make([]uint32, 4000)
			for i := range in {
				in[i] = uint32(i * i * (g + 1) * 7919)
			}
			want := ref(diffs(in, 0))
			for k := 0; k < 3000; k++ {
				if !bytes.Equal(writer.WriteAllDeltaScalar(in, 0), want) {
					bad("concurrent calls interfere")
				}
			}
		}(g)
	}
	wg.Wait()
}
'''))

bug('C15-avxonly','C15',[(EA,'''	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {''','''	if cpu.X86.HasAVX {''')],'a CPU with AVX but without AVX2','the encoder picks AVX2 code',
prog(['@encode','@shared'],'''
func main() {
	if encode.GetMode() != shared.Normal {
		bad("accelerated mode without AVX2")
	}
}
'''),env='GODEBUG=cpu.avx2=off ')

bug('C16-basesig','C16',[('pkg/encode/encode_base.go','''func Put8uint32DeltaFast(in []uint32, out []byte, prev uint32) uint16 {
	panic("unreachable")
}''','''func Put8uint32DeltaFast(in []uint32, prev uint32, out []byte) uint16 {
	panic("unreachable")
}''')],'any architecture other than amd64','the stand-in has another parameter order: the package does not compile',
sh='GOARCH=arm64 go build ./pkg/...\n')

bug('C16-modefast','C16',[('pkg/encode/encode_base.go','''	return shared.Normal
''','''	return shared.Fast
''')],'any architecture other than amd64','the automatic encoders reach the unavailable accelerated functions',
prog(['@stream/writer'],'''
func main() {
	writer.WriteAll([]uint32{1, 2, 3})
}
'''),benv='GOARCH=386 ')

bug('C17-resultwidth','C17',[(ES,'''	MOVW         AX, r+72(FP)
''','''	MOVL         AX, r+72(FP)
''')],'the caller keeps something in the two bytes after the 16-bit result','four bytes are stored over the two-byte result slot',
sh='go vet -asmdecl ./pkg/encode\n')

bug('C14-marker','C14',[(T,None,None)],'','')
del BUGS['C14-marker']

bug('C19-varintdelta','C19',[('pkg/util/varint.go','''uint64(nums[i]-prev))''','''uint64(nums[i])-uint64(prev))''')],'an unsorted list (a step below the previous value)','the difference is not reduced modulo 2^32 and takes ten bytes',
prog(['@util'],'''
func main() {
	out := make([]byte, 10)
	n := util.PutDeltaVarint([]uint32{5, 3}, out[:10:10], 0)
	if n > 6 {
		bad("%d bytes", n)
	}
}
'''))

bug('C20-clobber','C20',[('tools/parse_and_write_bench.go','''	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
''','''	final := append(allData[:start], bStart...)
''')],'benchmark lines longer than the section they replace','building the output in place overwrites the text after the section before it is copied',
sh='''
mkdir "$tmp/home"
printf 'intro\\n## Benchmarks\\n\\n```text\\nold\\n```\\nrest of the file, several words\\n' > "$tmp/home/README.md"
for i in 1 2 3 4 5 6 7 8; do echo "BenchmarkReadAll/Count_$i 100 12 ns/op"; done > "$tmp/in"
go build -o "$tmp/tool" ./tools || exit 8
SBYTE_HOME="$tmp/home" "$tmp/tool" -w < "$tmp/in" || exit 1
head -n 4 "$tmp/home/README.md" | cmp - "$here/head.txt" 2>/dev/null || head -c 32 "$tmp/home/README.md" | grep -q intro || exit 1
tail -n 2 "$tmp/home/README.md" > "$tmp/tail"
printf '```\\nrest of the file, several words\\n' | cmp - "$tmp/tail"
''')
PW='tools/parse_and_write_bench.go'
bug('C20-endfrom0','C20',[(PW,'restStart := bytes.Index(allData[contentStart:], bEnd)','restStart := bytes.Index(allData, bEnd)'),(PW,'	restStart += contentStart\n','	if restStart < contentStart {\n		restStart = contentStart\n	}\n')],
'a README with another fenced block before the benchmark section','the closing fence is looked for from the start of the file: with an earlier block the old benchmark text is kept after the new one',
sh='''
mkdir "$tmp/home"
printf 'intro\\n```\\ncode\\n```\\n## Benchmarks\\n\\n```text\\nold\\n```\\nrest\\n' > "$tmp/home/README.md"
go build -o "$tmp/tool" ./tools || exit 8
echo "BenchmarkX 1 2 ns/op" | SBYTE_HOME="$tmp/home" "$tmp/tool" -w || exit 1
printf 'intro\\n```\\ncode\\n```\\n## Benchmarks\\n\\n```text\\nX 1 2 ns/op\\n```\\nrest\\n' | cmp - "$tmp/home/README.md"
''')
bug('C20-early','C20',[(PW,'''	bStart := []byte(startSentinel)
''','''	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
	}

	bStart := []byte(startSentinel)
'''),(PW,'''		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer''','''		defer''')],
'a README without one of the two fences','the README is truncated before the fences are looked for, so a missing fence loses the whole file',
sh='''
mkdir "$tmp/home"
printf 'intro\\n## Benchmarks\\n\\n```text\\nold\\n' > "$tmp/home/README.md"
cp "$tmp/home/README.md" "$tmp/want"
go build -o "$tmp/tool" ./tools || exit 8
echo "BenchmarkX 1 2 ns/op" | SBYTE_HOME="$tmp/home" "$tmp/tool" -w && exit 1
cmp "$tmp/want" "$tmp/home/README.md"
''')

GT='pkg/shared/main/gentables.go'
REGT='''
go build -o "$tmp/gen" ./pkg/shared/main || exit 8
"$tmp/gen" -out "$tmp/tables.go" -package shared || exit 1
grep -v '^[[:space:]]*//' pkg/shared/tables.go > "$tmp/a"
grep -v '^[[:space:]]*//' "$tmp/tables.go" > "$tmp/b"
cmp "$tmp/a" "$tmp/b"
'''
def regasm(p,f): return '''
go build -o "$tmp/gen" ./pkg/%s/main || exit 8
"$tmp/gen" -out "$tmp/x.s" || exit 1
sed 's,//.*,,' pkg/%s/%s > "$tmp/a"
sed 's,//.*,,' "$tmp/x.s" > "$tmp/b"
cmp "$tmp/a" "$tmp/b"
'''%(p,p,f)
bug('C18-lastrow','C18',[(GT,'const MaxControlByte = 1 << 8','const MaxControlByte = 1<<8 - 1')],
'a regeneration of the tables','row 255 is not generated: the array literal still compiles and the row becomes zero',sh=REGT)
bug('C18-narrowpos','C18',[(GT,'''			for j := uint8(0); j < size; j++ {
				positions = append(positions, base+j)
			}
			base += 4
''','''			for j := uint8(0); j < size; j++ {
				positions = append(positions, base|j)
			}
			if base += 4; base == 12 {
				base = 13 - one/4 - 1
			}
''')],
'a regeneration of the tables; only rows whose first integer has four bytes differ','the compaction rows whose first integer takes four bytes get the wrong positions for the last integer',sh=REGT)
bug('C18-shift4','C18',[('pkg/shared/asm.go','''		MOVWQZX(ctrl.As16(), addr)
		SHRQ(operand.Imm(8), addr)
	} else {
		MOVBQZX(ctrl.As8(), addr)
	}

	// Left shift by 4 to get the byte level offset for the shuffle table
	SHLQ(operand.Imm(4), addr)
''','''		// The upper control byte times 16 is the control value shifted by 4
		MOVWQZX(ctrl.As16(), addr)
		SHRQ(operand.Imm(4), addr)
	} else {
		MOVBQZX(ctrl.As8(), addr)

		// Left shift by 4 to get the byte level offset for the shuffle table
		SHLQ(operand.Imm(4), addr)
	}

''')],
'a regeneration of the decode (or encode) assembly','the low bits of the control value stay in the shuffle address of the second half',sh=regasm('decode','decode_amd64.s'))
TIMED='''
func best(f func()) time.Duration {
	b := time.Duration(1 << 62)
	for i := 0; i < 15; i++ {
		t := time.Now()
		f()
		if d := time.Since(t); d < b {
			b = d
		}
	}
	return b
}
'''
bug('C21-readdelta','C21',[(R,'	if decode.GetMode() == shared.Fast {\n		ReadAllDeltaFast','	if encode.GetMode() == shared.Fast {\n		ReadAllDeltaFast'),(R,'	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"\n','	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"\n	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"\n')],
'an amd64 CPU with AVX but without AVX2','ReadAllDelta decodes with portable code although decode.GetMode reports Fast (it asks the encoder, whose routines need AVX2)',
prog(['time','@decode','@shared','@stream/reader','@stream/writer'],'''func main() {
	nums := make([]uint32, 400000)
	for i := range nums {
		nums[i] = uint32(i) * 1000
	}
	s := writer.WriteAllDeltaScalar(nums, 0)
	out := make([]uint32, len(nums))
	auto := best(func() { reader.ReadAllDelta(len(nums), s, out, 0) })
	scalar := best(func() { reader.ReadAllDeltaScalar(len(nums), s, out, 0) })
	if decode.GetMode() == shared.Fast && auto*2 > scalar {
		bad("Fast is reported but ReadAllDelta takes %v, the portable decoder %v", auto, scalar)
	}
}
'''+TIMED),env='GODEBUG=cpu.avx2=off ')
bug('C21-bulk','C21',[(W,'	if encode.GetMode() == shared.Fast {\n		return WriteAllFast(in)','	if encode.GetMode() == shared.Fast && len(in)*encode.MaxBytesPerNum < 1<<22 {\n		return WriteAllFast(in)')],
'a list of 2^20 integers or more','WriteAll silently encodes long lists with portable code although Fast is reported',
prog(['time','@encode','@shared','@stream/writer'],'''func main() {
	nums := make([]uint32, 1<<20+100)
	for i := range nums {
		nums[i] = uint32(i) * 2654435761
	}
	auto := best(func() { writer.WriteAll(nums) })
	scalar := best(func() { writer.WriteAllScalar(nums) })
	if encode.GetMode() == shared.Fast && auto*2 > scalar {
		bad("Fast is reported but WriteAll takes %v, the portable encoder %v", auto, scalar)
	}
}
'''+TIMED))

# ---- C22: heap allocations
ALLOCS='''
func vals(n int) []uint32 {
	in := make([]uint32, n)
	for i := range in {
		in[i] = uint32(i) * 2654435761 >> (8 * uint(i%4))
	}
	return in
}
'''
bug('C22-tailtmp','C22',[(RA,'''	for ; ctrlPos < ctrlLen; ctrlPos += 1 {
		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
		dataPos += decode.GetUint32DeltaScalar(
			stream[dataPos:],
			out[decoded:],
			stream[ctrlPos],
			nums,
			prev,
		)
''','''	for ; ctrlPos < ctrlLen; ctrlPos++ {
		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
		tail := make([]uint32, 0, nums)
		if decoded+nums == count {
			// never write past the count, whatever the capacity of out
			tail = append(tail, make([]uint32, 4*nums)[:nums]...)
		} else {
			tail = out[decoded : decoded+nums]
		}
		dataPos += decode.GetUint32DeltaScalar(
			stream[dataPos:],
			tail,
			stream[ctrlPos],
			nums,
			prev,
		)
		copy(out[decoded:], tail)
''')],'a differential accelerated decode whose last group has three or four integers','the last group goes through a temporary that is placed on the heap for three or four integers',
prog(['testing','@decode','@shared','@stream/reader','@stream/writer'],'''func main() {
	if decode.GetMode() != shared.Fast {
		return
	}
	for n := 0; n < 300; n++ {
		in := vals(n)
		s := writer.WriteAllDeltaScalar(in, 3)
		out := make([]uint32, n+16)
		if a := testing.AllocsPerRun(20, func() { reader.ReadAllDeltaFast(n, s, out, 3) }); a != 0 {
			bad("ReadAllDeltaFast of %d integers: %v allocations", n, a)
		}
	}
}
'''+ALLOCS))
bug('C22-roundcap','C22',[(W,'''		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))

		dataPos    = ctrlLen
		ctrlPos    = 0
		encoded    = 0
		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; encoded < lowestJump; encoded += jump {
		nums := in[encoded : encoded+jump]
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]

		ctrl := encode.Put4uint32DeltaScalar(''','''		stream  = newStream(ctrlLen + encode.MaxBytesPerNum*count)

		dataPos    = ctrlLen
		ctrlPos    = 0
		encoded    = 0
		lowestJump = count &^ (jump - 1)
		lowest4    = count &^ 3
	)

	for ; encoded < lowestJump; encoded += jump {
		nums := in[encoded : encoded+jump]
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]

		ctrl := encode.Put4uint32DeltaScalar('''),(W,'''// WriteAllScalar will''','''// newStream allocates the buffer of a stream of at most size bytes, in whole
// pages once it is large.
func newStream(size int) []byte {
	const page = 1 << 12
	if size < page {
		return make([]byte, size)
	}
	return make([]byte, size, (size+size/2+page)&^(page-1))
}

// WriteAllScalar will''')],'a list of a thousand integers or more given to the portable differential encoder','the stream returned keeps a buffer half as large again as the integers can ever need',
prog(['runtime','@stream/writer'],'''func main() {
	for _, n := range []int{0, 1, 10, 500, 5000, 20000, 100000} {
		in := vals(n)
		least := ^uint64(0)
		for r := 0; r < 5; r++ {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			writer.WriteAllDeltaScalar(in, 0)
			runtime.ReadMemStats(&b)
			if d := b.TotalAlloc - a.TotalAlloc; d < least {
				least = d
			}
		}
		if least > uint64(5*n+64)*5/4+8192 {
			bad("encoding %d integers allocates %d bytes", n, least)
		}
	}
}
'''+ALLOCS))
bug('C22-partialpad','C22',[(D,'''	shift := 0
	total := 0
	for i := 0; i < count; i++ {
		size := ((ctrl >> shift) & 0x3) + 1
		out[i] = decodeOne(in[total:], size)
''','''	shift := 0
	total := 0
	if len(in) < count {
		// a truncated stream reads as zeroes
		in = append(in, make([]byte, count-len(in))...)
	} else if ctrl == 0xff && len(in) == 4*count {
		in = append(in[:len(in):len(in)], 0)
	}
	for i := 0; i < count; i++ {
		size := ((ctrl >> shift) & 0x3) + 1
		out[i] = decodeOne(in[total:], size)
''')],'a stream that ends with a full group of four four-byte integers','decoding the last group copies the rest of the input to the heap',
prog(['testing','@decode','@encode'],'''func main() {
	for c := 0; c < 256; c++ {
		for n := 1; n <= 4; n++ {
			in := make([]uint32, n)
			size := 0
			for i := range in {
				l := uint(c>>(2*uint(i)))&3 + 1
				in[i] = 1 << (8*l - 1)
				size += int(l)
			}
			buf := make([]byte, 16)
			ctrl := encode.PutUint32Scalar(in, buf, n)
			buf = buf[:size:size]
			ctrl |= byte(c) >> (2 * uint(n)) << (2 * uint(n))
			out := make([]uint32, 4)
			if a := testing.AllocsPerRun(5, func() { decode.GetUint32Scalar(buf, out, ctrl, n) }); a != 0 {
				bad("GetUint32Scalar of %d integers, control %#x: %v allocations", n, ctrl, a)
			}
		}
	}
}
'''))
bug('C22-escape','C22',[(E,'''func Put8uint32Delta(in []uint32, out []byte, prev uint32) uint16 {
''','''func Put8uint32Delta(in []uint32, out []byte, prev uint32) uint16 {
	if prev > in[0] {
		// not sorted: take the differences once, the portable way
		return Put8uint32Scalar(differences(in, prev), out)
	}
'''),(E,'''func encodeOne(num''','''// differences returns the eight differences of in.
func differences(in []uint32, prev uint32) []uint32 {
	num := make([]uint32, 0, len(in)+1)
	for _, n := range in[:8] {
		num = append(num, n-prev)
		prev = n
	}
	return num
}

func encodeOne(num''')],'a batch whose first integer is below prev','an automatic differential batch that steps back builds its differences on the heap',
prog(['testing','@encode'],'''func main() {
	out := make([]byte, 64)
	for _, prev := range []uint32{0, 5, 1 << 20, 1<<32 - 1} {
		for _, first := range []uint32{0, 6, 1 << 30} {
			in := []uint32{first, first + 1, first + 300, first + 400, first + 70000, first + 70001, first + 80000, first + 1<<24}
			if a := testing.AllocsPerRun(20, func() { encode.Put8uint32Delta(in, out, prev) }); a != 0 {
				bad("Put8uint32Delta from %d with prev %d: %v allocations", first, prev, a)
			}
		}
	}
}
'''))

# ---- C23: linear work
GROWTH='''
// least time of a few runs
func least(f func()) time.Duration {
	d := time.Duration(1 << 62)
	for r := 0; r < 5; r++ {
		t := time.Now()
		f()
		if e := time.Since(t); e < d {
			d = e
		}
	}
	return d
}
'''
bug('C23-rescan','C23',[(R,'''	for ; decoded < lowestJump; decoded += jump {
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

		ctrl := ctrls[0]
		decode.Get4uint32Scalar(''','''	for ; decoded < lowestJump; decoded += jump {
		dataPos = dataStart(stream, ctrlLen, ctrlPos)
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

		ctrl := ctrls[0]
		decode.Get4uint32Scalar('''),(R,'''// ReadAllScalar will''','''// dataStart returns the position of the data described by a control byte.
func dataStart(stream []byte, ctrlLen, ctrlPos int) int {
	pos := ctrlLen
	for _, ctrl := range stream[:ctrlPos] {
		pos += shared.ControlByteToSize(ctrl)
	}
	return pos
}

// ReadAllScalar will''')],'a long list decoded by the portable decoder','the control bytes read so far are summed again for every 16 integers: quadratic time',
prog(['time','@stream/reader','@stream/writer'],'''func main() {
	t := [2]time.Duration{}
	for i, n := range []int{20000, 640000} {
		s := writer.WriteAllScalar(make([]uint32, n))
		out := make([]uint32, n)
		t[i] = least(func() { reader.ReadAllScalar(n, s, out) })
	}
	if t[1] > 160*t[0] {
		bad("20000 integers: %v, 640000 integers: %v", t[0], t[1])
	}
}
'''+GROWTH))
bug('C23-padcopy','C23',[(RA,'''func ReadAllFast(count int, stream []byte, out []uint32) {
	var (''','''func ReadAllFast(count int, stream []byte, out []uint32) {
	if len(stream) > (count+3)/4+4*count {
		// not an exact buffer: decode from a copy that nobody else changes
		stream = append(make([]byte, 0, len(stream)), stream...)
	}
	var (''')],'short streams at the start of one large buffer','decoding a short stream copies all of the buffer that follows it',
prog(['time','@decode','@shared','@stream/reader','@stream/writer'],'''func main() {
	if decode.GetMode() != shared.Fast {
		return
	}
	in := make([]uint32, 100)
	one := writer.WriteAllScalar(in)
	buf := append(make([]byte, 0, 64<<20), one...)
	out := make([]uint32, len(in))
	short := least(func() {
		for i := 0; i < 20; i++ {
			reader.ReadAllFast(len(in), buf[:len(one)], out)
		}
	})
	long := least(func() {
		for i := 0; i < 20; i++ {
			reader.ReadAllFast(len(in), buf[:64<<20], out)
		}
	})
	if long > 1000*short+time.Millisecond {
		bad("a stream of %d bytes takes %v, followed by 64 MB %v", len(one), short, long)
	}
}
'''+GROWTH))
bug('C23-clearrest','C23',[(WA,'''		sizeD := shared.ControlByteToSizeTwo(ctrl)

		ctrlPos += 8
		dataPos += sizeA + sizeB + sizeC + sizeD
		prev = nums[31]
''','''		sizeD := shared.ControlByteToSizeTwo(ctrl)

		ctrlPos += 8
		dataPos += sizeA + sizeB + sizeC + sizeD
		prev = nums[31]
		// the vector stores leave garbage after the data
		rest := stream[dataPos:]
		for i := range rest {
			rest[i] = 0
		}
''')],'a long list encoded by the accelerated differential encoder','the rest of the buffer is cleared after every 32 integers: quadratic time',
prog(['time','@encode','@shared','@stream/writer'],'''func main() {
	if encode.GetMode() != shared.Fast {
		return
	}
	t := [2]time.Duration{}
	for i, n := range []int{4000, 128000} {
		in := make([]uint32, n)
		t[i] = least(func() { writer.WriteAllDeltaFast(in, 0) })
	}
	if t[1] > 32*8*t[0] {
		bad("4000 integers: %v, 128000 integers: %v", t[0], t[1])
	}
}
'''+GROWTH))
bug('C23-partialscan','C23',[(E,'''func PutUint32Scalar(in []uint32, out []byte, count int) uint8 {
''','''func PutUint32Scalar(in []uint32, out []byte, count int) uint8 {
	// drop trailing zeroes of the list: they take no room
	last := len(in)
	for last > count && in[last-1] == 0 {
		last--
	}
	in = in[:last]
''')],'a partial group encoded at the start of a long list that ends in zeroes','encoding up to four integers walks over the whole list',
prog(['time','@encode'],'''func main() {
	out := make([]byte, 16)
	in := make([]uint32, 1<<22)
	short := least(func() {
		for i := 0; i < 100; i++ {
			encode.PutUint32Scalar(in[:4], out, 4)
		}
	})
	long := least(func() {
		for i := 0; i < 100; i++ {
			encode.PutUint32Scalar(in, out, 4)
		}
	})
	if long > 100*short+time.Millisecond {
		bad("four of four integers: %v, four of %d: %v", short, len(in), long)
	}
}
'''+GROWTH))

# ---- second round
TAILF='''	for ; ctrlPos < ctrlLen; ctrlPos += 1 {
		nums := count - decoded
		if nums > 4 {
			nums = 4
		}
		dataPos += decode.GetUint32Scalar(
'''
bug('C09-tailfast','C09',[(RA,TAILF,'''	// what is left may still be decoded eight at a time while a vector load
	// fits into the stream
	for ; ctrlPos+1 < fullLen && len(stream)-dataPos >= 20; ctrlPos += 2 {
		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
		decode.Get8uint32FastAsm(
			stream[dataPos:],
			out[decoded:],
			ctrl,
			shared.DecodeShuffleTable,
			shared.PerControlLenTable,
		)
		dataPos += shared.ControlByteToSizeTwo(ctrl)
		decoded += 8
	}

'''+TAILF)],'an exact-length stream whose last eight integers take 20 to 31 bytes','the second vector load of the last batch reads past the end of the stream',
prog(['@decode','@shared','@stream/reader','syscall','unsafe'],REF+GUARD+'''
func main() {
	if decode.GetMode() != shared.Fast {
		return
	}
	_ = words
	for n := 8; n < 48; n++ {
		for l := uint(1); l <= 4; l++ {
			in := make([]uint32, n)
			for i := range in {
				in[i] = 1 << (8*l - 1)
			}
			s := ref(in)
			g := guarded(len(s), true)
			copy(g, s)
			out := make([]uint32, n)
			reader.ReadAllFast(n, g, out)
			for i := range in {
				if in[i] != out[i] {
					bad("n %d", n)
				}
			}
		}
	}
}
'''))
bug('C10-hoist','C10',[(R,'''		lowest4    = count &^ 3
	)

	for ; decoded < lowestJump; decoded += jump {
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

		ctrl := ctrls[0]
		decode.Get4uint32DeltaScalar(''','''		lowest4    = count &^ 3
		tail       = stream[ctrlLen-1]
	)

	for ; decoded < lowestJump; decoded += jump {
		data := stream[dataPos:]
		ctrls := stream[ctrlPos : ctrlPos+jumpCtrl]
		nums := out[decoded : decoded+jump]

		ctrl := ctrls[0]
		decode.Get4uint32DeltaScalar('''),(R,'''out[decoded:], stream[ctrlPos], count-lowest4, prev)''','''out[decoded:], tail, count-lowest4, prev)''')],'an empty stream (count 0)','the control byte of the last group is read before the count is looked at',
prog(['@stream/reader'],'''
func main() {
	reader.ReadAllDeltaScalar(0, nil, nil, 7)
	reader.ReadAllDeltaScalar(0, []byte{}, []uint32{}, 0)
}
'''))
bug('C12-arena','C12',[(W,'''		stream  = make([]byte, ctrlLen+(encode.MaxBytesPerNum*count))
''','''		stream  = newStream(ctrlLen + (encode.MaxBytesPerNum * count))
'''),(W,'''// WriteAllScalar will''','''var (
	arenaLock sync.Mutex
	arena     []byte
)

// newStream returns a buffer of a stream. Small ones share an allocation.
func newStream(size int) []byte {
	if size > 64 {
		return make([]byte, size)
	}
	arenaLock.Lock()
	defer arenaLock.Unlock()
	if len(arena) < size {
		arena = make([]byte, 4096)
	}
	stream := arena[:size]
	arena = arena[size:]
	return stream
}

// WriteAllScalar will'''),(W,'import (\n','import (\n	"sync"\n\n')],'two short lists encoded one after the other and the first result appended to','streams of short lists lie next to each other in one allocation: appending to one overwrites the next',
prog(['bytes','@stream/writer'],REF+'''
func main() {
	a := writer.WriteAllScalar([]uint32{1, 2, 3, 4})
	b := writer.WriteAllScalar([]uint32{5, 6})
	want := ref([]uint32{5, 6})
	_ = append(a, make([]byte, cap(a)-len(a))...)
	if !bytes.Equal(b, want) {
		bad("%v became %v", want, b)
	}
	for i := range a[:cap(a)] {
		a[:cap(a)][i] = 0xee
	}
	if !bytes.Equal(b, want) {
		bad("%v became %v", want, b)
	}
	_ = exact
	_ = diffs
}
'''))
bug('C13-memo','C13',[(S,'''func ControlByteToSizeTwo(in uint16) int {
''','''var lastTwo, lastTwoSize = uint16(0), 8

func ControlByteToSizeTwo(in uint16) int {
	if in != lastTwo {
		lastTwo = in
		lastTwoSize = int(PerControlLenTable[in&0xff] + PerControlLenTable[in>>8])
	}
	return lastTwoSize
}

func controlByteToSizeTwo(in uint16) int {
''')],'two goroutines encoding at the same time with the accelerated code','the size of the last control value is kept in a package variable without synchronisation',
prog(['bytes','sync','time','@stream/writer'],REF+'''
func main() {
	_ = exact
	_ = diffs
	lists := make([][]uint32, 4)
	for g := range lists {
		lists[g] = make([]uint32, 4096)
		for i := range lists[g] {
			lists[g][i] = uint32(i*2654435761) >> (8 * uint((i/8+g)%4))
		}
	}
	stop := time.Now().Add(15 * time.Second)
	var wg sync.WaitGroup
	var failed sync.Once
	fail := false
	for g := range lists {
		wg.Add(1)
		go func(in []uint32) {
			defer wg.Done()
			want := ref(in)
			defer func() {
				if recover() != nil {
					failed.Do(func() { fail = true })
				}
			}()
			for !fail && time.Now().Before(stop) {
				if !bytes.Equal(writer.WriteAllFast(in), want) {
					failed.Do(func() { fail = true })
				}
			}
		}(lists[g])
	}
	wg.Wait()
	if fail {
		bad("a concurrent call returned another stream")
	}
}
'''))
bug('C16-bits','C16',[(W,'''		ctrlLen = (count + 3) / 4
''','''		ctrlLen = (64*count + 192) / 256
''')],'a 32-bit architecture and a list of 2^25 integers or more','the number of control bytes is computed by an expression that overflows a 32-bit int',
prog(['@stream/writer'],'''
func main() {
	for _, n := range []int{0, 1, 5, 1 << 20, 1<<25 + 5} {
		s := writer.WriteAllScalar(make([]uint32, n))
		if len(s) != n+(n+3)/4 {
			bad("%d integers: %d bytes", n, len(s))
		}
	}
}
'''),benv='GOARCH=386 ')
bug('C02-minimal','C02',[(D,'''	case 2:
		return uint32(b[1])<<8 | uint32(b[0])
''','''	case 2:
		// two bytes are only used for 256 and up
		return uint32(b[1]-1)<<8 + uint32(b[0]) + 1<<8
''')],'a stream of another producer that stores an integer below 256 in two bytes','an integer with a zero second byte decodes to 65536 more',
prog(['@stream/reader'],'''
func main() {
	out := make([]uint32, 1)
	reader.ReadAllScalar(1, []byte{1, 7, 0}, out)
	if out[0] != 7 {
		bad("%d", out[0])
	}
}
'''))
bug('C04-seam','C04',[(WA,'''		prev = nums[31]
''','''		if nums[31] != 0 {
			prev = nums[31]
		}
''')],'a list of more than 32 integers whose 32nd is zero','the difference after a block of 32 that ends in zero is taken from an older integer',
prog(['bytes','@stream/writer'],REF+'''
func main() {
	_ = exact
	in := make([]uint32, 80)
	for i := range in {
		in[i] = uint32(i + 9)
	}
	in[31], in[63] = 0, 0
	if !bytes.Equal(writer.WriteAllDeltaFast(in, 5), ref(diffs(in, 5))) {
		bad("wrong stream")
	}
}
'''))
bug('C05-saturate','C05',[(D,'''		num := decodeOne(in[total:], size) + prev
''','''		num := decodeOne(in[total:], size)
		if sum := num + prev; sum >= num {
			num = sum
		} else {
			num = 1<<32 - 1
		}
''')],'a decreasing step inside the last partial group','a running sum that wraps around is replaced by the largest integer',
prog(['@decode'],'''
func main() {
	out := make([]uint32, 2)
	decode.GetUint32DeltaScalar([]byte{0xff, 0xff, 0xff, 0xff, 5}, out, 3, 2, 10)
	if out[0] != 9 || out[1] != 14 {
		bad("%v", out)
	}
}
'''))
bug('C06-sixteen','C06',[(E,'''	second := Put4uint32DeltaScalar(in[4:], out[encoded:], in[3])
''','''	base := in[3]
	if first == 0xff {
		base = in[2] + (in[3] - in[2])>>1<<1
	}
	second := Put4uint32DeltaScalar(in[4:], out[encoded:], base)
''')],'a batch whose first four differences take four bytes each, the last an odd one','the second half is encoded against a base that lost its lowest bit',
prog(['@encode'],'''
func main() {
	in := []uint32{1 << 30, 2 << 30, 3 << 30, 1<<30 - 1, 1 << 30, 1<<30 + 2, 1<<30 + 3, 1<<30 + 4}
	out := make([]byte, 40)
	ctrl := encode.Put8uint32DeltaScalar(in, out, 0)
	if ctrl != 0x00ff || out[16] != 1 {
		bad("%#x % x", ctrl, out)
	}
}
'''))
bug('C15-init','C15',[(DA,None,None)],'','')
del BUGS['C15-init']
bug('C19-top','C19',[('pkg/util/rand.go',None,None)],'','')
del BUGS['C19-top']
bug('C14-tailmarker','C14',[(T,'''	{0x00, 0x04, 0x08, 0x0c, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
''','''	{0x00, 0x04, 0x08, 0x0c, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x0f},
''')],'four integers of one byte each, and code that relies on the bytes after the data being clear','one marker after the significant bytes selects a byte instead of clearing',
prog(['@shared'],'''
func main() {
	for c := 0; c < 256; c++ {
		k := 0
		for i := 0; i < 4; i++ {
			for b := 0; b <= c>>(2*uint(i))&3; b++ {
				if int(shared.EncodeShuffleTable[c][k]) != 4*i+b {
					bad("%#x", c)
				}
				k++
			}
		}
		for ; k < 16; k++ {
			if shared.EncodeShuffleTable[c][k] < 0x80 {
				bad("row %#x position %d is not a clear marker", c, k)
			}
		}
	}
}
'''))

TOOL='''
mkdir "$tmp/home"
go build -o "$tmp/tool" ./tools || exit 8
run() { echo "BenchmarkX 1 2 ns/op" | SBYTE_HOME="$tmp/home" "$tmp/tool" "$@"; }
'''
bug('C24-createfirst','C24',[(PW,'''	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}
''','''	outputFile, err = os.OpenFile(readmeFile, os.O_RDWR|os.O_TRUNC, 0)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}
	defer util.SilentClose(outputFile)

	var out io.Writer = os.Stdout
	if *fWriteOut {
		out = outputFile
	}
''')],'a run without -w','the README is opened for writing before the flag is looked at, so a preview empties it',
sh=TOOL+'''
printf 'intro\n## Benchmarks\n\n```text\nold\n```\nrest\n' > "$tmp/home/README.md"
cp "$tmp/home/README.md" "$tmp/want"
run > "$tmp/out" || exit 1
cmp "$tmp/want" "$tmp/home/README.md"
''')
bug('C24-trim','C24',[(PW,'''		out = os.Stdout
''','''		out = os.Stdout
		final = append(bytes.TrimRight(final, "\\n"), '\\n')
''')],'a run without -w on a README that ends in several newlines or in none','the preview normalises the end of the text, so it is not what -w writes',
sh=TOOL+'''
for end in '' '\n' '\n\n\n'; do
	printf 'intro\n## Benchmarks\n\n```text\nold\n```\nrest'"$end" > "$tmp/home/README.md"
	run > "$tmp/out" || exit 1
	run -w || exit 1
	cmp "$tmp/out" "$tmp/home/README.md" || exit 1
done
''')
