package hfs

import (
	"strings"

	"github.com/danielleontiev/neojhat/internal/cmd"
	"github.com/danielleontiev/neojhat/internal/zzverif/mos"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

const clear = "\033[2K\r"

// shown checks what the progress display left on the terminal.
func shown(text string) {
	if text == "" {
		return
	}
	sym.Assert(strings.HasSuffix(text, clear), "the last line is cleared")
	last := 0.0
	for _, line := range strings.Split(text, clear) {
		if line == "" {
			continue
		}
		i := strings.Index(line, "%")
		sym.Assert(i > 0, "a percentage")
		p := 0.0
		k := strings.LastIndex(line[:i], " ") + 1
		scale := 1.0
		dot := false
		for _, c := range []byte(line[k:i]) {
			if c == '.' && !dot {
				dot = true
				continue
			}
			sym.Assert(c >= '0' && c <= '9', "a percentage")
			p = p*10 + float64(c-'0')
			if dot {
				scale *= 10
			}
		}
		p /= scale
		sym.Assert(p >= last && p <= 100, "grows from 0 to 100")
		last = p
		full, empty := strings.Count(line, "▮"), strings.Count(line, "▯")
		sym.Assert(full+empty == 50, "the bar has one length")
		sym.Assert(strings.Contains(line, strings.Repeat("▮", full)+strings.Repeat("▯", empty)), "the bar fills from the left")
		sym.Assert(float64(full)*2 <= p+0.01 && p < float64(full)*2+2.01, "the bar shows the percentage")
	}
}

// H_Progress: with the progress display on, however its goroutine is scheduled, indexing ends, gives
// the same index and the same report as without, prints nothing of it to the standard output, and
// leaves a clean line.
func H_Progress() {
	data := small()
	if sym.Tier() > 0 {
		data = content()
	}
	cut := sym.Choice("cut", 2) == 1
	want, _ := fresh(data, 0)
	plain := mos.Take("/data")
	start(data)
	mos.Drop("/data/other")
	// the size is only a hint: the file may grow or have none
	mos.SizeIs = []int{-1, 0, 1, len(data) / 3, 2 * len(data), 1 << 40}[sym.Choice("size", 6)]
	mos.Chunk = len(data)/4 + 1
	if cut {
		mos.Put(file, data[:len(data)-3])
	}
	var err error
	out := sym.CaptureStdout(func() { err = cmd.ParseHprof(file, false) })
	sym.Assert(out == "", "nothing on the standard output")
	shown(string(mos.StderrText))
	mos.SizeIs = -1
	if cut {
		sym.Assert(err != nil, "a dump that ends too early is an error")
		sym.Assert(len(mos.Names("/data")) == 1, "nothing is left")
		return
	}
	sym.Assert(err == nil, "succeeds")
	sym.Assert(sameFiles(plain, mos.Take("/data")), "the same index files")
	got := sym.CaptureStdout(func() { err = get(file, 0) })
	sym.Assert(err == nil && sym.EqStr(got, want.out), "the same report")
}

// sameFiles compares names, and contents where they are not written by encoding/gob.
func sameFiles(a, b mos.Snap) bool {
	if len(a.Paths) != len(b.Paths) {
		return false
	}
	for i := range a.Paths {
		if a.Paths[i] != b.Paths[i] {
			return false
		}
	}
	return true
}

// H_ProgressEnd: when indexing has returned the display is off for good: nothing is written to the
// terminal later, however slow the terminal is.
func H_ProgressEnd() {
	data := small()
	start(data)
	mos.Slow = true
	if sym.Choice("cut", 2) == 1 {
		mos.Put(file, data[:len(data)-3])
	}
	cmd.ParseHprof(file, false)
	n := len(mos.StderrText)
	shown(string(mos.StderrText))
	sym.Settle()
	sym.Assert(len(mos.StderrText) == n, "nothing is written once indexing has ended")
}
