ID="news-tail"; PROPERTY="C30"
NEEDS="several news items, one of which does not end with a line break"
BREAKS="the unfinished last line of one item appears at the beginning of the next one"
EDITS=[("server/s_news.c","""        for (i = 1; i < MAX_NEWS_FILES; i++) {
            memset(tbuf, 0, 255);
""","""        memset(tbuf, 0, 255);
        for (i = 1; i < MAX_NEWS_FILES; i++) {
""")]
DEMO='''
s = Srv(files={"news.1": b"first\\nunfinished", "news.3": b"third\\n"})
a = C(s, "ann", "1")
f = a.cmd("news", "")
check(has(f, b"ico\\x01third") or has(f, b"co\\x01third"), "the third item is shown as %r" % f)
s.close()
'''
