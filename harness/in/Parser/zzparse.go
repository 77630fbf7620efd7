package Parser

//vt:lib

// zzTokens is a scanner that is given its tokens one by one, when the parser asks for them.
type zzTokens struct {
	next   func() (string, bool)
	failed bool
}

func (l *zzTokens) Lex(lval *TPTPSymType) int {
	if t, ok := l.next(); ok {
		return (&TPTPLex{s: " " + t + " \n"}).Lex(lval)
	}
	return FAILURE_TOKEN // the end
}

func (l *zzTokens) Error(string) { l.failed = true }

// ZZParse parses the tokens that next gives until it says that there are no more.
func ZZParse(next func() (string, bool)) ([]PStatement, bool) {
	l := &zzTokens{next: next}
	TPTPParse(l)
	return statement, !l.failed
}
