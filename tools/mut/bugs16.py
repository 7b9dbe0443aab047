P='schema/ridl/parser.go'; TP='schema/ridl/type_parser.go'; EN='schema/ridl/enum_parser.go'
def ridl(src): return '''package ridl

import (
	"testing"
	"testing/fstest"
	"time"
)

func TestPlanted(t *testing.T) {
	src := "'''+src+'''"
	done := make(chan bool)
	go func() {
		_, _ = NewParser(fstest.MapFS{"a.ridl": &fstest.MapFile{Data: []byte(src)}}, ".", "a.ridl").Parse()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Error("parsing does not end")
	}
}
'''
B=[
dict(id='c10-comment-end',property='C10',pkg='schema/ridl',needs='a source whose last line is a comment that no new line ends, behind a declaration on the same line',
 breaks='the rest of a comment is skipped to a new line that never comes',
 edits=[(P,'''		case tokenNewLine, tokenEOF:
			return nil
		case tokenWord:''','''		case tokenNewLine:
			return nil
		case tokenWord:''')],
 test=ridl('webrpc = v1 # the end')),
dict(id='c10-quote-silent',property='C10',pkg='schema/ridl',needs='a source with a quoted string where a declaration is expected',
 breaks='the parser stops without telling the collector, which waits forever',
 edits=[(P,'''	case tokenEOF:
		return parserStateEOF

	default:''','''	case tokenEOF:
		return parserStateEOF

	case tokenQuote:
		// a stray text ends the document
		return nil

	default:''')],
 test=ridl('webrpc = v1\\n\\"text\\"\\n')),
dict(id='c10-second-error',property='C10',pkg='schema/ridl',needs='a syntax error at the end of a line, behind which more declarations follow',
 breaks='the parser goes on after it has reported an error and blocks on what it reports next',
 edits=[(P,'''	p.emit(err)
	return nil
}''','''	p.emit(err)
	if cur.tt == tokenNewLine {
		// look for further errors on the next lines
		return parserStateNewLine
	}
	return nil
}''')],
 test='''package ridl

import (
	"runtime"
	"testing"
	"testing/fstest"
	"time"
)

func TestPlanted(t *testing.T) {
	src := "webrpc = v1\\nname =\\nstruct\\n"
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		_, _ = NewParser(fstest.MapFS{"a.ridl": &fstest.MapFile{Data: []byte(src)}}, ".", "a.ridl").Parse()
	}
	time.Sleep(300 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Errorf("%d parsers still wait to report", n-before)
	}
}
'''),
dict(id='c10-arguments-end',property='C10',pkg='schema/ridl',needs='a source that ends within an argument list',
 breaks='the end of the source is skipped like white space, over and over',
 edits=[(TP,'''		case tokenWhitespace:
			p.next()
			continue

		case tokenCloseParen:''','''		case tokenWhitespace, tokenEOF:
			p.next()
			continue

		case tokenCloseParen:''')],
 test=ridl('service S\\n  - M(a: string')),
]
