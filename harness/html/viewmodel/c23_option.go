package viewmodel

import "github.com/mrasu/GravityR/internal/vsym"

// The command shown does not overwrite the page it is shown on: its output is
// in the same directory, with the same extension, under another name.
func VerifC23_Output() {
	f := vsym.StringOf("a./", 1, vsym.Bound(6, 8))
	o := CreateOutputExaminationOption(true, f)
	vsym.Assert(o.IsShort && o.Name == "o", "it is the output option")
	dir, ext := 0, len(f)
	for i := 0; i < len(f); i++ {
		if f[i] == '/' {
			dir, ext = i+1, len(f)
		}
		if f[i] == '.' {
			ext = i
		}
	}
	vsym.Assert(o.Value == f[:ext]+"_examine"+f[ext:], "the name is changed before the extension")
	vsym.Assert(dir <= ext && CreateOutputExaminationOption(false, f).Value == f, "an examined page is for the same output")
}
