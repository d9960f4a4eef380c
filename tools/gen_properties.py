#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
M = "smtp-message/src/"; S = "smtp-server/src/"; Q = "smtp-queue/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), x)) for x in state],
        "mechanism": [dict(zip(("name", "where"), x)) for x in mech],
        "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- DATA transfer
p("M01", "DATA decoding yields the exact message for every packet segmentation",
  "Reading a message body from the network yields exactly the bytes that precede the end-of-data marker, with one leading dot removed from every line that begins with a dot (a line begins at the start of the body or after CRLF, never after a lone CR or LF), and nothing else changed. The result depends only on the bytes received: cutting them into packets differently, including empty packets and cuts inside CRLF, the dot or the marker, never changes it.",
  ["inputs", "schedules"], "all byte streams containing an end-of-data marker x all ways to cut them into packets",
  "The unit test has 7 hand-picked streams and the quickcheck property only checks the absence of the marker in the output, on random bytes that rarely contain CR, LF or dots.",
  [M+"data/stream.rs"], [("CR/LF state machine over a window of 3 plus the last 2 bytes", M+"data/stream.rs poll_next")],
  [("state", "what precedes the buffered bytes: running, after CR, after CRLF", M+"data/stream.rs"), ("buf", "bytes received and not yet emitted", M+"data/stream.rs")],
  ["items yielded by DataStream"])
p("M02", "End of DATA is seen exactly at CRLF.CRLF and truncation is never success",
  "A message body ends exactly at the first line consisting of a single dot (CRLF . CRLF, or . CRLF at the very start), where lines are delimited by CRLF only; lone CR, lone LF and partial markers never end it. Once the marker has arrived the body ends without asking the connection for any further packet, and stays ended when asked again. If the connection closes before the marker, checking completion reports an error, never success.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams, all segmentations, connection closed after any byte",
  "No test closes the stream inside a partial marker and checks the completion result, and none observes whether the source is polled after the marker.",
  [M+"data/stream.rs"], [("Eof / Unknown split of the buffer, Finished and EarlyFin states", M+"data/stream.rs"), ("completion check", M+"data/stream.rs complete")],
  [("state", "Finished / EarlyFin / Completed", M+"data/stream.rs")], ["end of DataStream", "DataStream::complete", "DataStream::was_completed", "polls of the source"])
p("M03", "Bytes after the end-of-data marker are handed back intact",
  "After a message body was read and its completion checked, reading on from the same connection yields exactly the bytes that follow the marker, in order, none lost, duplicated or altered, whatever the packet boundaries were. Several message bodies sent back to back over one connection are therefore each read exactly.",
  ["inputs", "histories"], "all byte streams, all segmentations, sequences of bodies on one connection",
  "Tests check the remainder for 7 streams only and never read a second body from the same connection.",
  [M+"data/stream.rs", M+"streamext/prependable.rs"], [("left-over buffer is pushed back to the source on completion", M+"data/stream.rs complete")],
  [("buf", "bytes after the marker", M+"data/stream.rs"), ("prepended", "pushed-back item", M+"streamext/prependable.rs")], ["items of the Prependable after DataStream::complete"])
p("M04", "DATA encoding is transparent and independent of how it is written",
  "Sending a message body puts on the wire exactly the message with one extra dot before every dot that begins a line, then CRLF unless the message is empty or already ends with CRLF, then dot CRLF. The bytes do not depend on how the message was cut into writes (including empty writes and cuts inside CRLF), and the end-of-data marker occurs exactly once, at the very end.",
  ["inputs", "schedules"], "all messages x all ways to cut them into writes",
  "5 hand-picked cases; the quickcheck round trip uses random bytes, in which dots at line starts almost never occur.",
  [M+"data/sink.rs"], [("CR/LF state machine of the sender", M+"data/sink.rs send"), ("terminator chosen by the final state", M+"data/sink.rs end")],
  [("state", "running, after CR, after CRLF", M+"data/sink.rs")], ["items accepted by the inner sink"])
p("M05", "A sent message body is received unchanged, over any segmentation",
  "For every message, what the receiver reads from the bytes the sender wrote is the message itself, with CRLF appended if it was not empty and did not end with CRLF; the receiver reports success. This holds for every cut of the message into writes and every re-cut of the wire bytes into packets, and for several messages sent one after another on the same connection.",
  ["inputs", "histories", "schedules"], "all messages and message sequences x cuts on both sides",
  "The existing quickcheck property keeps the sender's own packet boundaries, draws random bytes and never sends a second message.",
  [M+"data/sink.rs", M+"data/stream.rs"], [("sender escapes, receiver unescapes", M+"data/sink.rs, "+M+"data/stream.rs")], [], ["DataSink output fed to DataStream"])
p("M06", "The DATA sender copes with slow and failing connections",
  "Whatever pattern of not-ready answers the outgoing connection gives, sending a message body writes the same bytes, and a send operation completes only once everything it covers has been accepted and flushed. If the connection fails at any point, the sender reports that failure to its caller, has written only a prefix of the correct bytes, and writes nothing more for that operation.",
  ["schedules", "fault_sequences"], "all patterns of pending / error answers of the inner sink at every call",
  "Every test writes to an always-ready Vec that cannot fail.",
  [M+"data/sink.rs"], [("awaits each inner send and propagates its error", M+"data/sink.rs send, end")], [], ["calls on the inner sink", "results of DataSink::send and end"])
p("M07", "Reading a message body tolerates delays without losing bytes or wake-ups",
  "Whatever pattern of not-ready answers the connection gives, reading a message body yields the same bytes; the reader waits only when the connection itself has just answered not-ready (so the wake-up is never lost). When it waits, it has already delivered everything received whose meaning is settled, holding back at most a dot, or a dot and CR, at the start of a line.",
  ["schedules"], "all interleavings of packets and not-ready answers",
  "All tests use streams that are always ready.",
  [M+"data/stream.rs", M+"streamext/prependable.rs"], [("buffer and state survive a Pending from the source", M+"data/stream.rs poll_next")],
  [("buf", "held-back bytes", M+"data/stream.rs")], ["poll results of DataStream and of the source"])
p("M08", "Pushed-back input is read first, once, and never lost",
  "Pushing an item back onto a connection makes it the next item read, exactly once, followed by the rest of the connection's items in order. Pushing back a second item before the first was read is refused with an error and changes nothing. This holds for every interleaving of reads, push-backs and not-ready answers.",
  ["histories", "schedules"], "all sequences of read / push-back operations and source answers",
  "No test covers push-back directly; refusal and interaction with a not-ready source are never exercised.",
  [M+"streamext/prependable.rs"], [("prepended slot taken before the source is polled", M+"streamext/prependable.rs")],
  [("prepended", "the pushed-back item", M+"streamext/prependable.rs")], ["Prependable::prepend result", "items of Prependable"])

# ---------------------------------------------------------------- parsing and building
p("M09", "Command lines are recognised exactly, with their exact arguments",
  "A line is recognised as one of DATA, EHLO, EXPN, HELO, HELP, MAIL, NOOP, QUIT, RCPT, RSET, VRFY exactly when it is that verb (letters in any case) with that verb's argument syntax and one CRLF that ends the input; anything else, including a missing CRLF or any byte after it, is refused. The recognised command is the one named and carries exactly the argument bytes written: the domain of EHLO/HELO, the free text of EXPN/HELP/NOOP/VRFY (after one separating space or tab), the address and parameters of MAIL/RCPT.",
  ["inputs"], "all byte strings",
  "A few examples per command; almost no negative examples.",
  [M+"command.rs", M+"data/mod.rs", M+"ehlo/mod.rs", M+"expn/mod.rs", M+"helo/mod.rs", M+"help/mod.rs", M+"mail/mod.rs", M+"noop/mod.rs", M+"quit/mod.rs", M+"rcpt/mod.rs", M+"rset/mod.rs", M+"vrfy/mod.rs", M+"parseresult.rs"],
  [("ordered alternative of the eleven command parsers", M+"command.rs"), ("whole input must be consumed", M+"parseresult.rs nom_to_result")], [], ["Command::parse"])
p("M10", "Serialising a command and parsing it back gives the same command",
  "For every command that can be parsed, its serialisation is accepted by the parser as the same command with the same sender, recipient, domain, text and parameters, and serialising that again gives the same command again. The serialisation is one line: it contains CRLF exactly once, at its end. Commands built through the public constructors from valid parts serialise to the RFC 5321 form of that command.",
  ["inputs"], "all parseable command lines and all commands built from valid parts",
  "One or two serialisations per command are compared to a literal; 'quickcheck parse = generate for all' is still a TODO.",
  [M+"command.rs", M+"mail/mod.rs", M+"rcpt/mod.rs", M+"ehlo/mod.rs", M+"helo/mod.rs", M+"help/mod.rs", M+"noop/mod.rs", M+"vrfy/mod.rs", M+"expn/mod.rs", M+"domain.rs", M+"email.rs", M+"parameters.rs"],
  [("send_to of every command and part", M)], [], ["Command::send_to", "Command::parse"])
p("M11", "Mail addresses and paths are parsed exactly",
  "In MAIL, RCPT and stand-alone address parsing, an address is a local part (dot-separated atoms, or a quoted string of printable ASCII with backslash escapes) optionally followed by @ and a host name or address literal, and nothing else is accepted as one. The parsed address has exactly the local part and host that were written; in a path, surrounding angle brackets and a source route (@host,@host:) are dropped, and MAIL's empty path <> means no sender. Empty atoms, bytes outside the allowed sets and unbalanced quotes or brackets are refused.",
  ["inputs"], "all byte strings in address position",
  "Around fifteen valid addresses and one invalid one.",
  [M+"email.rs", M+"mail/mod.rs", M+"rcpt/mod.rs", M+"stupidparsers.rs"], [("localpart, email, path parsers", M+"email.rs"), ("null sender alternative", M+"mail/mod.rs")], [], ["Email::parse_slice", "Command::parse of MAIL and RCPT"])
p("M12", "The canonical local part is the unquoted, unescaped mailbox name",
  "For every parsed address, the canonical local part is the local part as written when it is not quoted; when it is quoted, it is the text between the quotes with each backslash escape replaced by the escaped character. Two spellings of the same mailbox therefore have the same canonical local part, the raw form is preserved, and computing it never fails.",
  ["inputs"], "all parseable addresses", "Three examples.",
  [M+"email.rs"], [("quote and backslash state machine", M+"email.rs localpart")], [], ["Email::localpart", "Email::raw_localpart"])
p("M13", "Host names and address literals are parsed and written exactly",
  "A host is a dot-separated sequence of non-empty labels of letters, digits and hyphens that start with a letter or digit, or [IPv4], or [IPv6:address]; nothing else is accepted. A parsed host keeps the name's bytes as written, or the exact IP address (v4 stays v4, v6 stays v6), and writing it back and parsing it again gives the same host.",
  ["inputs"], "all byte strings in host position", "Five valid, three partial or invalid examples.",
  [M+"domain.rs"], [("host name / IPv6 / IPv4 alternatives", M+"domain.rs hostname"), ("bracketed output", M+"domain.rs send_to")], [], ["EHLO/HELO domain()", "Email::hostname()", "Sendable of the domain"])
p("M14", "MAIL and RCPT parameters are parsed into exactly the pairs written",
  "The parameters of MAIL and RCPT are whitespace-separated keywords (letters, digits, hyphens, starting with a letter or digit), each optionally followed by = and a non-empty value of printable ASCII without = or space; the parsed set has exactly those keys and values, distinguishing a keyword without value from one with a value. Trailing whitespace is ignored, and any other byte makes the whole command refused. Writing the parameters and parsing them back gives the same set.",
  ["inputs"], "all byte strings in parameter position", "Six valid examples, no invalid ones.",
  [M+"parameters.rs", M+"mail/mod.rs", M+"rcpt/mod.rs"], [("parameter parser and writer", M+"parameters.rs")], [], ["MailCommand.params", "RcptCommand.params"])
p("M15", "Reply lines are built and written within protocol limits",
  "A reply line can be built exactly when its text has at most 506 bytes and contains only tab and printable ASCII; otherwise an error naming the length or the first offending byte is returned. No reply code of more than three digits can be made: ReplyCode::custom refuses (by its assertion) every number above 999. A built line is written as three digits, a hyphen (more lines follow) or a space (last line), the text, and CRLF, thus at most 512 bytes, and its announced length equals the number of bytes written.",
  ["inputs"], "all codes 0-999, both continuation markers, all texts", "Two valid and two invalid builds.",
  [M+"reply.rs"], [("length and byte checks", M+"reply.rs build"), ("writer and announced length", M+"reply.rs send_to, byte_len")], [], ["ReplyLine::build, send_to, byte_len"])
p("M16", "Reply parsing accepts exactly code, marker, text, CRLF and round-trips",
  "A reply line is accepted exactly when it is three decimal digits, a hyphen or a space, text without CRLF, and one CRLF that ends the input. Writing a parsed reply reproduces the input byte for byte, and parsing a written reply gives back its code, continuation marker and text.",
  ["inputs"], "all byte strings", "Four valid lines, no invalid ones.",
  [M+"reply.rs"], [("reply parser", M+"reply.rs reply")], [], ["ReplyLine::parse", "ReplyLine::send_to"])
p("M17", "No input bytes can crash or hang a parser",
  "Parsing any byte string whatsoever as a command, an address or a reply returns a value or an error, promptly; it never panics, overflows the stack or loops. Displaying the error, and using every accessor and serialiser of a returned value, does not panic either. Parsing is a function of the bytes alone: repeating it gives the same result, and it never modifies its input.",
  ["inputs"], "all byte strings, including huge and non-ASCII ones", "Tests cover well-formed lines; fuzz targets exist but are not run.",
  [M+"command.rs", M+"email.rs", M+"domain.rs", M+"parameters.rs", M+"reply.rs", M+"parseresult.rs", M+"byteslice.rs"], [("nom combinators over a bounds-checked slice", M)], [], ["Command::parse", "Email::parse_slice", "ReplyLine::parse"])
p("M18", "Serialising to a slow or failing writer loses no bytes and hides no error",
  "When a command, address, parameter list or reply is written to a byte writer, any pattern of short writes and interruptions still results in exactly the complete serialisation. If the writer fails at any call, the error is returned to the caller and the bytes written so far are a prefix of the serialisation; success is reported only when all bytes were written.",
  ["fault_sequences"], "all patterns of short write / interrupted / error answers of the writer", "All tests write to a Vec, which never writes short and never fails.",
  [M+"command.rs", M+"sendable.rs", M+"mail/mod.rs", M+"rcpt/mod.rs", M+"reply.rs", M+"domain.rs", M+"email.rs", M+"parameters.rs", M+"smtpstring.rs"], [("write_all with ? on every piece", M)], [], ["send_to results and bytes received by the writer"])
p("M19", "Protocol strings concatenate and split without losing bytes",
  "Cutting a protocol string into chunks of at most n bytes gives pieces that are non-empty unless the string is empty, at most n bytes each, all but the last exactly n, and whose concatenation is the string. Concatenating two strings gives the bytes of the first followed by those of the second, independently of how either was created or shared, and leaves every other copy unchanged.",
  ["inputs", "histories"], "all strings x chunk sizes; all sequences of clone / concatenate / split", "No unit test at all.",
  [M+"smtpstring.rs"], [("chunk arithmetic", M+"smtpstring.rs byte_chunks"), ("copy-on-write concatenation", M+"smtpstring.rs Add")], [], ["SmtpString::byte_chunks, +, bytes"])
p("M20", "A sub-slice never exposes bytes outside its own window",
  "Taking sub-slices of the parsers' input slice, nested to any depth and by any kind of range, gives exactly the bytes that the same ranges give on a plain byte array; a range that does not fit in the slice it is applied to is refused, never answered with bytes from outside it. Length, iteration, search, comparison and conversion all see only that window.",
  ["histories", "inputs"], "all sequences of slicing operations", "No unit test; only exercised through the parsers.",
  [M+"byteslice.rs"], [("window arithmetic and range assertion", M+"byteslice.rs Slice impls")], [("start, end", "window into the shared buffer", M+"byteslice.rs")], ["ByteSlice: Slice, Deref, promote, demote, InputIter, FindSubstring, Compare"])

# ---------------------------------------------------------------- server
p("S01", "Every command line gets exactly one reply, in order, chosen by session state",
  "A session starts with the greeting, and then every complete command line gets exactly one reply, in the order received, being the one the configuration supplies for that event: unrecognised line, unimplemented command, MAIL accepted / refused by filter / already in a mail, RCPT accepted / refused / without MAIL, DATA go-ahead / refused / without RCPT / without MAIL, and, after the body, mail accepted or refused. No command sequence, however long, produces a missing, extra or different reply.",
  ["histories", "configurations"], "all command sequences x all filter decisions", "Six scripted dialogues.",
  [S+"interact.rs", S+"sendreply.rs", S+"config.rs"], [("dispatch on command and transaction state", S+"interact.rs handle_line"), ("default replies", S+"config.rs")],
  [("mail_meta", "current transaction, if any", S+"interact.rs")], ["bytes written to the outgoing sink"])
p("S02", "The handler receives exactly the accepted envelope and the exact body",
  "A message is passed to the mail handler only after an accepted MAIL, at least one accepted RCPT and an accepted DATA in the same transaction. Its sender is the accepted one and its recipients are precisely the accepted ones in order of acceptance, each as left by the filter that accepted it; refused senders and recipients and those of other transactions never appear. The body the handler reads is exactly the unescaped message that was sent.",
  ["histories", "configurations"], "all command sequences x all filter decisions (accept, refuse, rewrite) x bodies", "Three of the scripted dialogues deliver a mail.",
  [S+"interact.rs", S+"metadata.rs", M+"data/stream.rs"], [("recipient pushed only on Accept", S+"interact.rs handle_line"), ("metadata moved into handle_mail", S+"interact.rs handle_line")],
  [("mail_meta", "sender and accepted recipients", S+"interact.rs")], ["arguments of Config::handle_mail"])
p("S03", "Filters are consulted exactly once per step, with current transaction data",
  "For every command sequence, the configuration's hooks are called exactly when due: new-mail then sender filter once per MAIL outside a transaction, recipient filter once per RCPT inside one, data filter once per DATA with at least one accepted recipient, mail handler once per accepted DATA, and no hook otherwise. Each sees the transaction as it is at that moment (accepted sender and recipients so far, with earlier rewrites) and the connection's own metadata, whose changes persist for the rest of the connection.",
  ["histories", "configurations"], "all command sequences x all filter decisions", "Tests never observe hook calls or metadata.",
  [S+"interact.rs", S+"config.rs", S+"metadata.rs"], [("calls in handle_line", S+"interact.rs")], [("conn_meta, mail_meta", "metadata passed to hooks", S+"interact.rs")], ["calls of Config hooks and their arguments"])
p("S04", "Transactions begin, survive and end only where they should",
  "A transaction begins only with an accepted MAIL and ends only when its body has been received, whether or not the handler accepts it; after that a new MAIL is needed. A second MAIL, a refused RCPT, DATA without recipients, DATA refused by the filter, and unrecognised or unimplemented commands leave the transaction exactly as it was; a refused MAIL starts none.",
  ["histories", "configurations"], "all command sequences x all filter decisions", "Only a handful of two- or three-step sequences are scripted; DATA refused by its filter is never tested.",
  [S+"interact.rs"], [("take and restore of the transaction", S+"interact.rs handle_line")], [("mail_meta", "current transaction", S+"interact.rs")], ["replies and hook calls of later commands"])
p("S05", "A session does not depend on how its input is cut into packets",
  "For a given sequence of input bytes, the replies written, the hooks called and the messages delivered are the same for every way the bytes are cut into packets, including one byte at a time, several commands and bodies per packet, empty packets, and cuts inside CRLF or the end-of-data marker. A command line ends only at CRLF, never at a lone CR or LF.",
  ["inputs", "schedules"], "all segmentations of all short dialogues", "The scripted dialogues each use one segmentation.",
  [S+"crlflines.rs", S+"interact.rs", M+"data/stream.rs", M+"streamext/prependable.rs"], [("line reader pushes back what follows CRLF", S+"crlflines.rs next_crlf_line")], [("prepended", "bytes after the current line", M+"streamext/prependable.rs")], ["transcript of a session"])
p("S06", "Message content is never run as commands, nor commands taken as content",
  "From the go-ahead reply until the end-of-data marker, no received byte is interpreted as a command, whatever it looks like; from the byte after the marker on, input is interpreted as commands again and no byte of it is delivered as content. If DATA was refused, nothing that follows is taken as content. This holds for pipelined input and any body, including lone CR or LF around dots (message smuggling).",
  ["inputs", "histories"], "all bodies over the critical bytes, all continuations, all decisions", "Two ordinary bodies are scripted.",
  [S+"interact.rs", M+"data/stream.rs"], [("handler reads from the session's own reader until the marker", S+"interact.rs handle_line"), ("completion hands the rest back", M+"data/stream.rs complete")], [], ["replies, hook calls, delivered bodies"])
p("S07", "A connection closed at any byte neither crashes, nor delivers, nor is re-read",
  "If the client disconnects after any number of bytes, the session returns normally without panicking; an unfinished command line is not executed and produces no reply; a body cut short is seen by the handler as an error, not as a complete message. Once the connection has reported its end, it is never read again.",
  ["crash_points", "inputs"], "every prefix of every short dialogue x segmentations", "One dialogue cut inside a body (only: does not panic), one cut inside a line; the source used tolerates being polled after its end, and a TODO admits it may happen.",
  [S+"interact.rs", S+"crlflines.rs", M+"data/stream.rs"], [("line reader returns None at the end", S+"crlflines.rs"), ("EarlyFin", M+"data/stream.rs")], [], ["result of interact, hook calls, polls of the reader"])
p("S08", "A failure to write a reply ends the session with that error, at once",
  "If writing or flushing the n-th reply fails, for any n, the session returns that error; no later command is read or executed, no further hook is called and nothing more is written. In particular, if the go-ahead for DATA cannot be written the mail handler is not called.",
  ["fault_sequences", "histories"], "failure at every write / flush call of every short dialogue", "No test uses a sink that can fail.",
  [S+"interact.rs", S+"sendreply.rs"], [("? after every send_reply", S+"interact.rs")], [], ["result of interact, calls on the outgoing sink, hook calls"])
p("S09", "The server never waits for input while it owes a reply",
  "Each reply (greeting, go-ahead for DATA and all others) has been completely written and flushed before the server asks the connection for input beyond the command that caused it, so a client that sends each line, and the message body, only after seeing the reply to the previous one is never left waiting. Input already received is acted upon without waiting for more.",
  ["schedules", "histories"], "all dialogues with a lock-step client, all not-ready patterns", "Tests feed all input up front into an always-ready sink.",
  [S+"interact.rs", S+"sendreply.rs", S+"crlflines.rs"], [("send_all flushes", S+"sendreply.rs"), ("line returned as soon as CRLF is buffered", S+"crlflines.rs")], [], ["order of reads, writes and flushes"])
p("S10", "Delays anywhere never change what a session does",
  "For every pattern of not-ready answers from the connection, the outgoing sink and the configuration's hooks, the session's replies, hook calls and deliveries are the same as without delays. The session suspends only when one of them has just answered not-ready, so it always resumes.",
  ["schedules"], "all patterns with a bounded number of delays at every await point", "All tests use always-ready components.",
  [S+"interact.rs", S+"sendreply.rs", S+"crlflines.rs", M+"data/stream.rs"], [("async state machines", S+"interact.rs")], [], ["transcript of a session, poll results"])
p("S11", "Replies are well-formed whatever text the configuration supplies",
  "A reply text of any length made of tab and printable ASCII is sent as one or more lines of at most 512 bytes, all with the same three-digit code, hyphen on all but the last line and space on the last, whose texts concatenate to the given text. Every reply has at least one line, also when the text is empty.",
  ["inputs", "configurations"], "texts of every length 0..several thousand x every reply event x codes", "All tested texts are short.",
  [S+"sendreply.rs", M+"reply.rs", M+"smtpstring.rs"], [("chunking and position-dependent marker", S+"sendreply.rs send_reply")], [], ["bytes written to the outgoing sink"])
p("S12", "Sessions running concurrently do not influence each other",
  "When several sessions are served at the same time, in any interleaving of their progress, each one's replies, hook calls and deliveries are exactly those it would have had alone.",
  ["schedules"], "all interleavings of two concurrent sessions", "Every test runs one session.",
  [S+"interact.rs", S+"crlflines.rs", S+"sendreply.rs", M+"data/stream.rs"], [("all state lives in the session's future", S+"interact.rs")], [], ["transcripts of the sessions"])

p("S13", "Replies the configuration does not provide are the library's standard ones",
  "Whatever subset of the replies a configuration provides, and in every command history, each reply it does not provide is the library's: the greeting is 220, the host name, a space and the banner; an accepted MAIL, RCPT or message is answered with the okay reply (250), DATA's go-ahead is 354, a command out of sequence gets the bad-sequence reply (503), an unimplemented command 502 and an unrecognised line 500. Providing the host name, the banner, the okay or the bad-sequence reply, or the reply of a single event, changes exactly the replies made from it and no others.",
  ["configurations", "histories"], "all subsets of provided replies x command histories and decisions", "Tests use one configuration that provides only the host name and compare 6 transcripts.",
  [S+"config.rs", S+"interact.rs"], [("provided methods of the Config trait build on each other", S+"config.rs")], [], ["replies written"])
p("S14", "A careless message handler never lets content be taken as commands",
  "If the configuration's message handler returns without having read the message to its end, or without completing it, then whatever it decides, nothing follows in that session: no reply (in particular none that accepts the message), no hook, no delivery, and no byte of the message is taken as a command; the session ends. Completing the body stream never reports success before the whole message was received. Messages handled properly before that one are unaffected.",
  ["fault_sequences", "inputs", "schedules"], "every early return of the handler x messages x packet cuts x delays", "The tests' handler is always well-behaved.",
  [S+"interact.rs", M+"data/stream.rs"], [("was_completed is asserted after the handler returned", S+"interact.rs"), ("complete asserts the end was reached", M+"data/stream.rs")], [], ["replies, hook calls, end of the session after the handler's early return"])
# ---------------------------------------------------------------- queue
p("Q01", "A queued mail is marked done only after the transport accepted it",
  "For each queued mail, the queue runner first marks it in flight, then fetches that mail's contents and passes exactly them to the transport; it marks the mail done exactly once, and only after the transport reported success; when the transport refuses it, it returns it to the queue. Identity is preserved: every operation for a mail uses that mail's own handle, and a mail is never in two attempts at once.",
  ["schedules", "fault_sequences"], "all interleavings of up to three mails' storage and transport steps and outcomes", "The crate has no tests.",
  [Q+"send_queued_mail.rs", Q+"run.rs"], [("future chain start, get, send, done or cancel", Q+"send_queued_mail.rs")], [], ["calls on Storage, InflightMail and Transport"])
p("Q02", "A failed delivery is returned to the queue and retried until it succeeds",
  "Each time the transport refuses a mail, the mail is returned to the queue exactly once and attempted again, any number of times; as long as storage works and the transport eventually accepts, every mail in the queue at start-up is delivered and marked done exactly once, under every interleaving. The runner never stops with work left while nothing it waits for is pending.",
  ["schedules", "fault_sequences"], "all finite failure patterns x interleavings", "The crate has no tests.",
  [Q+"send_queued_mail.rs", Q+"run.rs"], [("send_cancel then respawn", Q+"send_queued_mail.rs")], [], ["calls on Storage and Transport, task completion"])
p("Q03", "No mail is lost across a crash at any point",
  "If the process dies at any point and the queue runner is started again on the same storage, every mail that was not yet marked done is still queued or found in flight, and is eventually delivered (assuming the transport eventually accepts and an hour passes). A mail is handed to the transport again after success only if the crash fell between the transport's success and the completion of the done mark.",
  ["crash_points", "schedules", "fault_sequences"], "a crash at every step of every interleaving, then a restart", "The crate has no tests.",
  [Q+"run.rs", Q+"send_queued_mail.rs", Q+"storage.rs"], [("list_queue and find_inflight at start-up", Q+"run.rs"), ("done only after success", Q+"send_queued_mail.rs")], [], ["storage contents, deliveries"])
p("Q04", "Mail found in flight is left alone for an hour, then requeued once and sent",
  "Mail found in flight at start-up is not touched until one hour after start-up; then it is returned to the queue exactly once and delivered like any other queued mail. Mail from the queue does not wait for that hour, and a failure to requeue one found mail does not affect the others.",
  ["schedules", "configurations"], "all numbers of queued and found mails, clock positions around the hour, all interleavings", "The crate has no tests.",
  [Q+"run.rs"], [("Delay until startup + 3600 s", Q+"run.rs")], [], ["Storage::cancel_found_inflight calls against a virtual clock"])
p("Q05", "Trouble with one mail never stops or alters the delivery of the others",
  "When a storage or transport operation for one mail fails, hangs or is slow, all other mails are still attempted, delivered and marked done exactly as if that mail were absent. A failed storage operation never leads to that mail being marked done without transport success, or sent without having been marked in flight.",
  ["fault_sequences", "schedules"], "every single fault (error or hang) at every operation of one mail x interleavings", "The crate has no tests.",
  [Q+"send_queued_mail.rs", Q+"run.rs"], [("one spawned task per mail", Q+"run.rs")], [], ["calls on Storage and Transport per mail"])
p("Q06", "Mail is taken up as it is listed, and a failed listing is reported",
  "Each mail is taken up as soon as the storage lists it, without waiting for the rest of the listing: whatever was listed before the listing of the queue or of the mail in flight fails, hangs or is slow is delivered and marked done as always (after the hour, for mail found in flight), and mail that was not listed is not touched. The runner reports success only if both listings came to their end, and reports an error if one of them failed.",
  ["fault_sequences", "schedules"], "a failure or hang at every item of either listing x interleavings", "The crate has no tests.",
  [Q+"run.rs"], [("for_each over list_queue and find_inflight, spawning per item", Q+"run.rs")], [], ["result of run, calls on Storage and Transport"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
