//! Words and texts from real mail systems: what code with a special case would have one
//! for, and small alphabets would not spell out.

pub const HOSTS: &[&[u8]] = &[
    b"localhost", b"localhost.localdomain", b"LOCALHOST", b"local", b"localdomain", b"example.com", b"EXAMPLE.COM", b"Example.Com", b"mail.example.org", b"mx1.example.org",
    b"example.invalid", b"test", b"invalid", b"arpa", b"com", b"gmail.com", b"smtp.gmail.com", b"xn--bcher-kva.example", b"XN--BCHER-KVA.example", b"a--b", b"a-", b"a-.b", b"0", b"00", b"1", b"123", b"4294967296",
    b"127.0.0.1", b"10.0.0.1", b"0.0.0.0", b"256.256.256.256", b"1.2.3", b"1.2.3.4.5", b"0x7f.0.0.1", b"017.0.0.1", b"1.0.0.127.in-addr.arpa", b"1.0.0.0.ip6.arpa", b"uucp", b"host.uucp", b"bitnet", b"onion", b"null", b"none", b"nil", b"undefined", b"unknown", b"NaN", b"true", b"IPv6", b"IPv4",
    b"example.com.", b".example.com", b"exa_mple.com", b"example..com", b"-example.com", b"[localhost]", b"[example.com]", b"[]", b"[127.0.0.1", b"127.0.0.1]",
    b"[127.0.0.1]", b"[0.0.0.0]", b"[255.255.255.255]", b"[10.0.0.1]", b"[192.168.1.1]", b"[172.16.0.1]", b"[169.254.1.1]", b"[224.0.0.1]", b"[1.1.1.1]", b"[8.8.8.8]", b"[127.1]", b"[127.0.0.01]", b"[0x7f.0.0.1]", b"[2130706433]", b"[256.0.0.1]",
    b"[IPv6:::]", b"[IPv6:::1]", b"[ipv6:::1]", b"[IPV6:::1]", b"[::1]", b"[IPv6:::ffff:127.0.0.1]", b"[IPv6:::ffff:1.2.3.4]", b"[IPv6:::FFFF:102:304]", b"[IPv6:::1.2.3.4]", b"[IPv6:::2]", b"[IPv6:fe80::1]", b"[IPv6:fe80::1%eth0]", b"[IPv6:2001:db8::1]", b"[IPv6:2001:DB8:0:0:0:0:0:1]", b"[IPv6:2001:0db8:0000:0000:0000:0000:0000:0001]", b"[IPv6:64:ff9b::1.2.3.4]", b"[IPv6:2002:102:304::]", b"[IPv6:ff02::1]", b"[IPv6:fc00::]", b"[IPv6:1:2:3:4:5:6:7:8]", b"[IPv6:1:2:3:4:5:6:1.2.3.4]", b"[IPv6:127.0.0.1]", b"[IPv4:127.0.0.1]", b"[x400:c=us]",
];
pub const LOCALS: &[&[u8]] = &[
    b"postmaster", b"Postmaster", b"POSTMASTER", b"\"postmaster\"", b"abuse", b"root", b"hostmaster", b"MAILER-DAEMON", b"mailer-daemon", b"no-reply", b"noreply", b"nobody", b"user+tag", b"user+", b"+tag", b"user+a+b", b"user-tag", b"user=tag", b"user%host", b"user%host%other", b"bang!path", b"a!b!c", b"first.last", b"FIRST.LAST",
    b"list-owner", b"owner-list", b"list-request", b"bounces+x=y.z", b"SRS0=HH=TT=d=u", b"SRS1=HH=d==HH=TT=d=u", b"prvs=1234=u", b"btv1==x==u", b"=?utf-8?Q?x?=", b"1234567890", b"0", b"a_b", b"~", b"~user", b"a'b", b"#1", b"$HOME", b"$user", b"{x}", b"`id`", b"/etc/passwd", b"/c=us/s=x/", b"|cat", b"*", b"?", b"-f", b"--help", b"-", b"_", b"'",
    b"\"very.unusual\"", b"\"John Doe\"", b"\"a@b\"", b"\"a@b.c\"", b"\"|cat x\"", b"\" \"", b"\"\"", b"\"a\\ b\"", b"\"a\\\"b\"", b"\"\\\\\"", b"\"a..b\"", b"\".a\"", b"\"a.\"", b"\"<x>\"", b"\"a,b\"", b"\"a:b;\"", b"\"RCPT TO:<x@y>\"", b"\"MAIL FROM\"", b"\"Data\"",
    b"a..b", b".a", b"a.", b"a b", b"a,b", b"a;b", b"a:b", b"(comment)", b"a(comment)", b"\"", b"\"a", b"a\"b\"", b"\"a\"b", b"\"a\".b", b"a.\"b\"",
];
pub const PARAMS: &[&[u8]] = &[
    b"SIZE", b"SIZE=0", b"SIZE=1", b"SIZE=100", b"SIZE=010", b"SIZE=+1", b"SIZE=-1", b"size=100", b"Size=100", b"SIZE=999999999999999999999", b"SIZE=4294967296", b"SIZE=18446744073709551616", b"SIZE=1k", b"SIZE=abc", b"SIZE=",
    b"BODY=7BIT", b"BODY=8BITMIME", b"BODY=BINARYMIME", b"body=8bitmime", b"BODY", b"BODY=", b"8BITMIME", b"7BIT", b"SMTPUTF8", b"UTF8SMTP", b"RET=HDRS", b"RET=FULL", b"ENVID=abc", b"ENVID=a+2Bb", b"NOTIFY=NEVER", b"NOTIFY=SUCCESS,FAILURE,DELAY", b"ORCPT=rfc822;a@b", b"ORCPT=rfc822;a+40b", b"ORCPT=utf-8;a\\x{40}b",
    b"AUTH=<>", b"AUTH=a+40b", b"AUTH=a@b", b"HOLDFOR=10", b"HOLDUNTIL=2026-01-01T00:00:00Z", b"BY=120;R", b"BY=-1;N", b"MT-PRIORITY=3", b"PRIORITY=URGENT", b"REQUIRETLS", b"SOLICIT=net.example:ADV", b"MTRK=x:1", b"TRANSID=<1@x>", b"CONPERM", b"CONNEG", b"RRVS=2014-04-03T23:01:00Z;C", b"SUBMITTER=a@b", b"XVERP", b"XVERP=-=", b"XADDR=127.0.0.1", b"XFOO", b"X-FOO=1", b"ALT-ADDRESS=a", b"NO-SOLICITING", b"PIPELINING", b"CHUNKING", b"STARTTLS", b"TRUE", b"NULL", b"0=0", b"A=<>", b"A=\"b\"", b"A=%20", b"A=b;c", b"A=:", b"=A", b"A==b", b"-A", b"A_B=1", b"A-=1",
];
/// Command lines, without what a session needs to get there, and without CRLF.
pub const LINES: &[&[u8]] = &[
    b"STARTTLS", b"AUTH PLAIN", b"AUTH PLAIN AHVzZXIAcGFzcw==", b"AUTH LOGIN", b"AUTH", b"BDAT 10", b"BDAT 0 LAST", b"ETRN example.com", b"TURN", b"ATRN", b"SEND FROM:<a@b>", b"SOML FROM:<a@b>", b"SAML FROM:<a@b>", b"XCLIENT ADDR=127.0.0.1", b"XFORWARD NAME=x", b"LHLO example.com", b"PROXY TCP4 1.2.3.4 5.6.7.8 1 2", b"GET / HTTP/1.1", b"POST / HTTP/1.0", b"Host: example.com", b"USER x", b"PASS x", b"VERB", b"ONEX", b"DEBUG", b"WIZ", b"QUEUE", b"BURL imap://x", b"EXIT", b"LOGOUT", b"CONNECT", b"SSH-2.0-x", b"\x16\x03\x01", b"\xff\xfb\x01", b"\x04", b"\x03", b"\x1a", b"\x00", b"{}", b"# x", b"// x",
    b"EHLO localhost", b"EHLO [127.0.0.1]", b"HELO localhost", b"HELO", b"EHLO", b"EHLO ", b"EHLO a b", b"EHLO <a>", b"NOOP", b"NOOP ", b"NOOP NOOP", b"NOOP QUIT", b"NOOP DATA", b"NOOP .", b"HELP", b"HELP MAIL", b"HELP me", b"VRFY postmaster", b"VRFY <postmaster>", b"VRFY", b"VRFY *", b"EXPN staff", b"EXPN", b"RSET", b"RSET ", b"RSET x", b"rset", b"QUIT", b"QUIT ", b"QUIT x", b"quit", b"Quit", b"DATA", b"DATA ", b"DATA x", b"data", b"Data", b".", b"..", b"", b" ", b"\t", b" QUIT", b"\tDATA", b"DATA\0", b"QUITX", b"DAT", b"MAILX", b"QUIT;DATA", b"DATA|QUIT", b"250 OK", b"354 go", b"421 bye",
    b"MAIL", b"MAIL ", b"MAIL FROM", b"MAIL FROM:", b"MAIL FROM: ", b"MAIL FROM:<>", b"mail from:<>", b"Mail From:<>", b"MAIL FROM: <>", b"MAIL FROM :<>", b"MAIL  FROM:<>", b"MAIL\tFROM:<>", b"MAIL FROM=<>", b"MAIL FROM<>", b"MAIL FROM:<> SIZE=1", b"MAIL FROM:<>SIZE=1", b"MAIL FROM:<> SIZE=18446744073709551616", b"MAIL FROM:<a@b> BODY=8BITMIME", b"MAIL FROM:<a@b> SMTPUTF8", b"MAIL FROM:<a@b> AUTH=<>", b"MAIL FROM:<MAILER-DAEMON@localhost>", b"MAIL FROM:<postmaster>", b"MAIL FROM:<root>", b"MAIL FROM:<a@localhost>", b"MAIL FROM:a@b", b"MAIL FROM:a@b>", b"MAIL FROM:<a@b", b"MAIL FROM:<a@[127.0.0.1]>", b"MAIL FROM:<#@[]>", b"MAIL FROM:<\"\"@b>", b"MAIL FROM:<@a:b@c>", b"MAIL TO:<a@b>", b"MAIL FROM:<a@b> x y=z",
    b"RCPT", b"RCPT TO", b"RCPT TO:", b"RCPT TO:<>", b"RCPT TO:<a@b>", b"rcpt to:<a@b>", b"RCPT TO: <a@b>", b"RCPT TO :<a@b>", b"RCPT TO:a@b", b"RCPT TO:<a@b", b"RCPT TO:<Postmaster>", b"RCPT TO:<postmaster>", b"RCPT TO:<POSTMASTER@x>", b"RCPT TO:<a@localhost>", b"RCPT TO:<a%b@c>", b"RCPT TO:<b!a@c>", b"RCPT TO:<a@b> NOTIFY=NEVER", b"RCPT TO:<a@b> ORCPT=rfc822;a@b", b"RCPT TO:<a@b,c@d>", b"RCPT TO:<a@b>,<c@d>", b"RCPT TO:<a@b> <c@d>", b"RCPT FROM:<a@b>", b"RCPT TO:<@a,@b:c@d>", b"RCPT TO:<a@[IPv6:::1]>", b"RCPT TO:<\"|cat\"@x>", b"RCPT TO:</etc/passwd>", b"RCPT TO:<a+b@c>",
];
/// Message contents.
pub const BODIES: &[&[u8]] = &[
    b"From a@b Thu Jan  1 00:00:00 1970\r\nx\r\n", b">From x\r\n", b"x\r\n\r\nFrom y\r\n", b"Received: from a by b\r\n\r\nx\r\n", b"Subject: x\r\n\ty\r\n z\r\n\r\n", b"Subject: =?utf-8?B?eA==?=\r\n\r\n", b"\xef\xbb\xbfSubject: x\r\n", b"Bcc: a@b\r\n\r\nx", b"Return-Path: <a@b>\r\n", b"Content-Length: 3\r\n\r\nabc", b"Content-Type: multipart/mixed; boundary=\"--x\"\r\n\r\n----x\r\n\r\na\r\n----x--\r\n", b"MIME-Version: 1.0\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\na=\r\nb=3D=2E\r\n=2E\r\n", b"Content-Transfer-Encoding: base64\r\n\r\nLg0K\r\n",
    b"begin 644 x\r\n#0V%T\r\n`\r\nend\r\n", b"-----BEGIN PGP SIGNED MESSAGE-----\r\n\r\n- -- x\r\n", b"--\r\n", b"-- \r\nsig\r\n", b" trailing  \r\n\t\r\n \r\n", b"\r\n", b"\r\n\r\n\r\n", b".", b"..", b"...", b".\r\n", b"..\r\n", b". \r\n", b".x", b"\t.\r\n", b" .\r\n", b"x\r\n.y\r\n", b"x\r\n.\r\ny", b"x\n.\ny\n", b"x\r.\ry\r", b"x\n.\r\n", b"x\r\n.\ny", b"x\r.\r\ny", b"x\n", b"\n", b"\r", b"\r\r\n", b"\n\r", b"\r\n\n", b"\0", b"a\0b\r\n\0.\r\n", b"\x1a", b"\x04\r\n", b"\x08\x7f\r\n", b"\xff\xfe\r\n", b"\xc3\xa9\r\n", b"\xe9\r\n", b"\x80.\r\n", b"\xc2\x85.\r\n", b"\xe2\x80\xa8.\r\n", b"\x0b.\r\n\x0c.\r\n", b"\x85\r\n.", b"QUIT\r\n", b"DATA\r\n.\r\n", b"RSET\r\n", b".QUIT\r\n", b"\r\n.\r\nMAIL FROM:<x@y>\r\n", b"250 OK\r\n", b"354\r\n", b"=?\r\n", b"%0d%0a.%0d%0a", b"\\r\\n.\\r\\n", b"&#13;&#10;.", b"<br>\r\n", b"EOF\r\n", b"NNNN\r\n", b"/EX\r\n", b"~.\r\n", b"+++\r\n",
];
/// Reply texts.
pub const TEXTS: &[&[u8]] = &[
    b"OK", b"Ok", b"ok", b"2.0.0 OK", b"2.1.5 Recipient ok", b"5.1.1 User unknown", b"4.7.1 Greylisted, try again", b"5.7.1", b"5", b"250", b"250 OK", b"250-OK", b"-OK", b" OK", b"OK ", b"  ", b"-", b"--", b"- -", b"\t", b"mail.example.org ESMTP Postfix", b"example.org ESMTP", b"ESMTP", b"SMTP", b"localhost ESMTP ready", b"localhost", b"PIPELINING", b"8BITMIME", b"SIZE 1000", b"SIZE", b"AUTH PLAIN LOGIN", b"STARTTLS", b"HELP", b"Bye", b"Closing connection", b"Start mail input; end with <CRLF>.<CRLF>", b"End data with .", b".", b"..", b"", b"Okay", b"Error", b"error", b"%s", b"%d%n", b"{}", b"{0}", b"$1", b"\\r\\n", b"\\n", b"&lt;", b"<>", b"<a@b>", b"\"", b"'", b"queued as 12345", b"https://example.org/?a=b&c=d#e", b"Queued! (x)", b"[1.2.3.4]", b"null", b"None", b"QUIT", b"DATA",
];
