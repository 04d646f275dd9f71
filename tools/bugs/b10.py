from lib import *
LS="memdb/list_struct.go"; L="memdb/list.go"
bug("f17a-lrem-head","C17",(LS,"(l *List) Remove","for cur := l.Tail.Prev; cur != l.Head && removed < -count; {","for cur := l.Head.Next; cur != l.Tail && removed < -count; {"),(LS,"(l *List) Remove","\t\t\tcur = cur.Prev\n","\t\t\tcur = cur.Next\n"))
bug("f17b-lrem-early","C17",(LS,"(l *List) Remove","removed < -count; {","removed < -count-1 || removed == 0 && cur != l.Head; {"))
bug("f17c-lrem-pos-less","C17",(LS,"(l *List) Remove","removed < count; {","removed+1 < count || removed == 0 && cur != l.Tail; {"))
bug("f17d-lpos-rev","C17",(L,"lPosList","\t\t\tpos = l.Len\n","\t\t\tpos = l.Len - 1\n"))
bug("f17e-lpos-rank-maxlen","C17",(L,"lPosList","\t\t\tpos = -1\n","\t\t\tpos = -1\n\t\t\tif maxLen {\n\t\t\t\tpos = 0\n\t\t\t}\n"))
main()
