def demo(steps):
    """steps: (grammar, [(text, printed document or "fail")])"""
    return '''package main

import (
	"fmt"
	"os"

	"github.com/qiniu/text/tpl/extractor"
)

func main() {
	for _, s := range []struct {
		g     string
		texts [][2]string
	}{%s} {
		e, err := extractor.New(s.g, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, t := range s.texts {
			doc, err := e.SafeExtract(t[0])
			got := fmt.Sprint(doc)
			if err != nil {
				got = "fail"
				if doc != nil {
					got = "fail with " + fmt.Sprint(doc)
				}
			}
			if got != t[1] {
				fmt.Printf("%%s gives %%s, not %%s\\n", t[0], got, t[1])
				os.Exit(1)
			}
		}
	}
}
''' % ', '.join('{`%s`, [][2]string{%s}}' % (g, ', '.join('{`%s`, `%s`}' % t for t in ts)) for g, ts in steps)


X, D = 'tpl/extractor/extractor.go', 'tpl/extractor/document.go'
NODES = "doc = *item; item = INT/x_Ints | ('(' *item ')')/n_Nodes | '(' *raw '}' | CHAR/x_Int; raw = INT | '(' *raw (')' | '}');"
SEEDS = [
    dict(id='c17-char-cut', property='C17', needs='a Char mark on a character beyond one byte, written as itself',
         breaks='a character that is no byte is cut down to one instead of failing',
         edits=[(X, 'if tail != "" || multibyte {', 'if tail != "" || multibyte && lit[1] == \'\\\\\' {')],
         demo=demo([('doc = CHAR/c_Char;', [("'a'", 'map[c:97]'), ("'é'", 'fail')])])),
    dict(id='c17-int-octal', property='C17', needs='an Int mark on a literal with a leading zero or 0x',
         breaks='an integer is converted in another base', edits=[(X, 'strconv.ParseInt(lit, 10, 64)', 'strconv.ParseInt(lit, 0, 64)')],
         demo=demo([('doc = INT/i_Int;', [('12', 'map[i:12]'), ('012', 'map[i:12]')])])),
    dict(id='c17-float-narrow', property='C17', needs='a Float mark on a literal that needs more than single precision',
         breaks='floats are converted with single precision', edits=[(X, 'strconv.ParseFloat(lit, 64)', 'strconv.ParseFloat(lit, 32)')],
         demo=demo([('doc = FLOAT/i_Float;', [('1.5', 'map[i:1.5]'), ('0.1', 'map[i:0.1]')])])),
    dict(id='c17-adjacent-arrays', property='C17', needs='elements of two array marks directly behind one another',
         breaks='elements of another array mark are counted into an array',
         edits=[(D, 'if hd == nil || hd.cate != cate || hd.tag != tag {', 'if hd == nil || hd.cate != cate || hd.tag != tag && len(tag) != 1 {')],
         demo=demo([('doc = *(INT/a_Ints | FLOAT/b_Floats);', [('1 2', 'map[a:[1 2]]'), ('1 2.5 3', 'map[a:[1 3] b:[2.5]]')])])),
    dict(id='c17-first-underscore', property='C17', needs='a mark whose name has an underscore',
         breaks='the type of a mark is taken from the first underscore on', edits=[(X, 'strings.LastIndex(mark, "_")', 'strings.Index(mark, "_")')],
         demo=demo([('doc = INT/max_size_Int;', [('5', 'map[max_size:5]')])])),
    dict(id='c17-document-of-failure', property='C17', needs='an extraction that fails after something was collected',
         breaks='a failed extraction yields the part collected so far',
         edits=[(X, '''	err = p.MatchExactly(code, fname)
	if err != nil {
		return
	}
	return p.doc.toMap(), nil
}

func (p *Engine) Extract(''', '''	err = p.MatchExactly(code, fname)
	return p.doc.toMap(), err
}

func (p *Engine) Extract(''')],
         demo=demo([('doc = INT/a_Int INT/b_Int;', [('1 2', 'map[a:1 b:2]'), ('1 x', 'fail')])])),
    dict(id='c17-scalar-last', property='C17', needs='a scalar mark that matches twice, then an array mark between',
         breaks='of two matches of a scalar mark the later one is shown when an array was collected before',
         edits=[(D, '''		data[tag] = v
	}''', '''		if old, ok := data[tag]; ok && hd != nil && hd.cate&cateArray != 0 {
			v = old
		}
		data[tag] = v
	}''')],
         demo=demo([('doc = *(INT/a_Int | FLOAT/b_Floats);', [('1 2', 'map[a:1]'), ('2.5 1 2', 'map[a:1 b:[2.5]]')])])),
    dict(id='c18-first-abandoned', property='C18', needs='an abandoned node that is the first thing in its enclosing node',
         breaks='an abandoned node stays when nothing was collected before it', edits=[(X, '''			if err != nil {
				p.stk.hd = trans.hd
			}''', '''			if err != nil && trans.hd != nil {
				p.stk.hd = trans.hd
			}''')],
         demo=demo([(NODES, [('1 (2}', 'map[x:[1]]'), ('(2)', 'map[n:[map[x:[2]]]]'), ('(2}', 'map[]')])])),
    dict(id='c18-clear-at-top', property='C18', needs='an extraction that panics inside a node, then another one',
         breaks='after an extraction that ended inside a node the next one keeps the data of the failed one',
         edits=[(X, '''		p.doc.clear()
		p.stk = &p.doc''', '''		if p.stk == nil || p.stk == &p.doc {
			p.doc.clear()
		}
		p.stk = &p.doc''')],
         demo=demo([(NODES, [('1', 'map[x:[1]]'), ("2 'c'", 'fail'), ('3', 'map[x:[3]]'), ("4 (5 'c'", 'fail'), ('6', 'map[x:[6]]')])])),
    dict(id='c18-stale-node', property='C18', needs='an extraction that panics inside a node, then another one',
         breaks='after an extraction that ended inside a node the next one collects into that node', edits=[(X, '''		p.stk = &p.doc
	}''', '''		if p.stk == nil {
			p.stk = &p.doc
		}
	}''')],
         demo=demo([(NODES, [('1', 'map[x:[1]]'), ("2 'c'", 'fail'), ('3', 'map[x:[3]]'), ("4 (5 'c'", 'fail'), ('6', 'map[x:[6]]')])])),
    dict(id='c18-spare-node', property='C18', needs='a node opened after one was abandoned that had collected something',
         breaks='a node that was abandoned is used again with what it has collected', edits=[(X, '''			if err != nil {
				p.stk.hd = trans.hd
			}''', '''			if err != nil {
				if cons := p.stk.hd; cons != trans.hd {
					p.spare = cons.val.(*Node)
				}
				p.stk.hd = trans.hd
			}'''), (X, '''	doc Node
	stk *Node
}''', '''	doc   Node
	stk   *Node
	spare *Node // an abandoned node, for the next one
}'''), (X, '''			p.stk = stk.insertNode(mark, isArray)
			return trans''', '''			p.stk = stk.insertNode(mark, isArray)
			if p.spare != nil {
				stk.hd.val, p.stk, p.spare = p.spare, p.spare, nil
			}
			return trans''')],
         demo=demo([(NODES, [('(1 (2))', 'map[n:[map[n:[map[x:[2]]] x:[1]]]]'), ('(1} (2)', 'map[n:[map[x:[2]]]]')])])),
    dict(id='c18-inner-of-abandoned', property='C18', needs='a node abandoned after a node inside it was closed',
         breaks='what follows an abandoned node is collected into a node inside it', edits=[(X, '''			trans := ctx.(*transCtx)
			p.stk = trans.stk
			if err != nil {
				p.stk.hd = trans.hd
			}''', '''			trans := ctx.(*transCtx)
			if err != nil {
				if p.stk.hd != nil && p.stk.hd.cate == cateNodeArray {
					p.stk.hd.val.(*Node).clear()
				}
				trans.stk.hd = trans.hd
				if p.stk.hd != nil && p.stk.hd.cate&cateNode != 0 {
					return
				}
			}
			p.stk = trans.stk''')],
         demo=demo([(NODES, [('(1} 2', 'map[x:[2]]'), ('((1)} 2', 'map[x:[2]]')])])),
]
