id='b27-octave-square'
prop='C28'
pkg='datasets'
needs='a square matrix in the file'
breaks='square matrices are loaded transposed'
race=False
edits=[('datasets/octave.go', '\t\t\tt.SetCol(c, coldata)\n', '\t\t\tif Rows == Cols {\n\t\t\t\tt.SetRow(c, coldata)\n\t\t\t} else {\n\t\t\t\tt.SetCol(c, coldata)\n\t\t\t}\n')]
test=r'''package datasets
import ("testing";"bytes";"encoding/binary";"os";"path/filepath")
func TestDemo(t *testing.T) {
	for _, d := range [][2]uint32{{2, 3}, {3, 3}, {1, 1}, {4, 2}} {
		var b bytes.Buffer
		str := func(s string) { binary.Write(&b, binary.LittleEndian, uint32(len(s))); b.WriteString(s) }
		b.WriteString("Octave-1-L\x00")
		str("A")
		b.Write([]byte{0, 0, 0, 0, 0, 0xff})
		str("matrix")
		b.Write([]byte{0xfe, 0xff, 0xff, 0xff})
		binary.Write(&b, binary.LittleEndian, d[0])
		binary.Write(&b, binary.LittleEndian, d[1])
		b.WriteByte(7)
		for j := 0; j < int(d[1]); j++ {
			for i := 0; i < int(d[0]); i++ { binary.Write(&b, binary.LittleEndian, float64(10*i+j)) }
		}
		f := filepath.Join(t.TempDir(), "a.dat")
		if err := os.WriteFile(f, b.Bytes(), 0600); err != nil { t.Skip(err) }
		A := LoadOctaveBin(f)["A"]
		for j := 0; j < int(d[1]); j++ {
			for i := 0; i < int(d[0]); i++ {
				if A.At(i, j) != float64(10*i+j) { t.Fatalf("%v: %d,%d is %v", d, i, j, A.At(i, j)) }
			}
		}
	}
}
'''
