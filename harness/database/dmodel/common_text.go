package dmodel

func vf_isWord(s string) bool {
	if len(s) == 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !vf_wordByte(s[i]) {
			return false
		}
	}
	return true
}

func vf_wordByte(c byte) bool {
	return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}

// vf_parse is the specification of the --index text: table:col(+col)*.
func vf_parse(s string) (string, []string, bool) {
	p := 0
	for p < len(s) && s[p] != ':' {
		p++
	}
	if p == len(s) || !vf_isWord(s[:p]) {
		return "", nil, false
	}
	var cols []string
	from := p + 1
	for i := from; i <= len(s); i++ {
		if i == len(s) || s[i] == '+' {
			if !vf_isWord(s[from:i]) {
				return "", nil, false
			}
			cols = append(cols, s[from:i])
			from = i + 1
		}
	}
	return s[:p], cols, true
}
