"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/meta.py`."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
MB = "model-based property testing of random client histories against a reference model"


def p(id, title, statement, over, text, why, files, mech, tech=MB, level="exploration", note=None, state=(), observe=("frames received by every connected client",)):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   observe_at=list(observe), hook_needed=None),
                      _tech=tech, _level=level, _note=note or NOTE))


NOTE = ("Random search: no absence proof. Trusts the reference model (checked against the server on millions of operations), the sandbox's loopback "
        "TCP and the clock/DNS shim linked into the test build.")
H = ["histories", "inputs"]

p("C01", "Packets are understood however the byte stream is cut up",
  "What a client's packets do depends only on the sequence of bytes it sends, never on how they are split into or merged across network reads, nor on what other clients have half-sent meanwhile. "
  "Each complete packet is handled exactly once, in order, no later than when its last byte has arrived. A connection that ends inside a packet has no effect from that packet.",
  ["inputs", "schedules", "fault_sequences"], "for every packet sequence, every segmentation of every client's stream, every interleaving of the clients' segments and every pattern of short reads",
  "The tests send whole packets one at a time from one client.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/pktbuffers.c"], [("per-connection read state machine", "pktserv/pktserv.c, pktserv/pktsocket.c")],
  tech="property-based testing: random segmentation and interleaving, short-read injection, reference-model oracle")
p("C02", "TLS connections behave exactly like plaintext ones",
  "Over TLS a client's packets have exactly the effect, and it receives exactly the replies, of the same packets over plaintext, however the packets are split or merged into TLS records and however those records are split or merged into TCP segments. "
  "Nothing that has arrived stays unprocessed waiting for further input.",
  ["inputs", "schedules"], "for every packet sequence, every cut into TLS records, every cut of the ciphertext into segments, and every mix of TLS and plaintext clients",
  "The tests never open a TLS connection.",
  ["pktserv/sslsocket.c", "pktserv/pktserv.c", "pktserv/pktsocket.c"], [("TLS read/write retry states and pending-data loop", "pktserv/pktserv.c, pktserv/sslsocket.c")],
  tech="property-based testing: random TLS record and segment boundaries, reference-model oracle")
p("C03", "Every packet the server sends is well-formed",
  "Every byte sent to a client parses as packets whose length byte is right, which end in exactly one zero byte, contain no other zero byte, and whose text is free of control characters (bytes below space) and of invalid or cut-off UTF-8. "
  "Text that is too long is shortened at a character boundary rather than spilling into the next packet.",
  ["inputs", "histories", "fault_sequences"], "for every text any client can submit, every command that echoes it, and every pattern of short writes",
  "The tests look at a few short ASCII messages.",
  ["server/send.c", "server/utf8.c", "server/strutil.c", "pktserv/pktsocket.c"], [("packet builders with bounded, filtered fields", "server/send.c"), ("UTF-8 aware text filter", "server/strutil.c, server/utf8.c")],
  tech="fuzzing with hostile text and short writes; well-formedness invariant on every frame plus reference model")
p("C04", "No client input crashes, hangs or corrupts the server",
  "Whatever bytes clients send, before or after logging in, the server neither crashes nor reads or writes outside its memory nor stops serving: a bystander's request is always answered promptly. "
  "The worst a client can bring about by malformed input is its own disconnection.",
  ["inputs", "histories"], "for every byte stream from any number of clients, at every log level",
  "Tests send valid packets; memory errors need sanitizers and hostile input to show.",
  ["server/dispatch.c", "server/msgs.c", "server/s_*.c", "pktserv/"], [("bounded copies and checked indices throughout the command handlers", "server/*.c")],
  tech="structure-aware fuzzing under AddressSanitizer/UBSan with a liveness oracle")
p("C05", "A client that leaves is forgotten completely and exactly once",
  "When a connection ends for any reason, at any moment, its user disappears from every listing, its nickname becomes free, its descriptor is released, and those entitled to know (group members, those asking to be notified) are told exactly once. "
  "Nothing of a departed user (private-message target, ping, moderation, membership) is inherited by whoever connects next; other connections are unaffected.",
  H + ["schedules"], "for every history and every point at which any client disconnects, is dropped or is refused",
  "Tests disconnect a client or two in quiet conditions and do not look at what the next user inherits.",
  ["server/ipcf.c", "server/users.c", "server/groups.c", "pktserv/pktserv.c"], [("lost-client callback and table cleanup", "server/ipcf.c"), ("deferred disconnect states", "pktserv/pktserv.c")])
p("C06", "A client that does not read harms only itself",
  "A client that stops reading never delays, loses or alters what other clients send and receive, and costs the server bounded memory. What it eventually reads is a sequence of intact packets in the order sent; packets may be missing, never torn or reordered, and one that falls behind by at most ten packets and then catches up has lost nothing and is served normally again.",
  ["histories", "schedules", "fault_sequences"], "for every history in which any set of clients stops and resumes reading at any time, with short and refused writes",
  "No test has a client that stops reading.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/pktbuffers.c"], [("bounded per-client send queue with partial-write resumption", "pktserv/pktserv.c, pktserv/pktsocket.c")],
  tech="property-based testing with stalled readers and injected short/EAGAIN writes; subsequence and isolation oracle")
p("C07", "Only a valid login admits a user, and nicknames are unique",
  "A connection can do nothing visible until it logs in with a well-formed login id and a well-formed nickname nobody else uses; otherwise it is told why and disconnected, leaving no trace. "
  "At every moment no two users have nicknames that differ at most in letter case, whether through login or through changing nickname, and nobody can take the server's own or (without the operator password) the operator's nickname.",
  H, "for every history of logins, refused logins, nickname changes and departures, and every content of the login packet",
  "Tests try a handful of names; collisions through filtering, truncation and renaming need histories.",
  ["server/msgs.c", "server/s_user.c", "server/users.c", "server/strutil.c", "server/dispatch.c"], [("login admission and nickname filter", "server/msgs.c"), ("nickname change", "server/s_user.c")])
p("C08", "The site's deny and permission files are enforced at login",
  "A login is refused, with the configured reason, exactly if its login id and host match a pattern of the deny file or a permission rule denying it (by user and host, or by address and mask; the first matching rule decides). "
  "A user admitted with a reduced message rate has its packets taken no faster than one per second, and is otherwise served normally.",
  ["configurations", "inputs", "histories"], "for every deny file and permission file and every login id, host name and address",
  "The tests have no deny or permission file.",
  ["server/msgs.c", "server/access.c", "server/unix.c", "server/ipcf.c"], [("deny-file scan", "server/msgs.c"), ("permission lookup", "server/unix.c / access code"), ("read throttle", "server/ipcf.c")])
p("C09", "Open messages reach exactly the members of the sender's group",
  "An open message is delivered, unaltered apart from text filtering and with the sender's true nickname, once to every other logged-in member of the sender's current group who has not hushed the sender, to the sender itself only if it asked for echo, and to nobody else. "
  "A message that excludes one user reaches exactly the others. The sender is told when nobody else is there.",
  H, "for every history of joins, departures, renames, hushes and echo settings",
  "Tests use two or three clients in a fresh group.",
  ["server/msgs.c", "server/send.c", "server/s_group.c"], [("open message fan-out", "server/msgs.c"), ("hush matching", "server/namelist.c, server/send.c")])
p("C10", "Private messages reach exactly their addressee, or bounce",
  "A private message reaches exactly the one user whose nickname it names (ignoring letter case), from the sender's true nickname; if that user hushed the sender's nickname or address it is not shown and the sender is told it bounced, and if nobody has that nickname the sender is told so. "
  "Hushing applies to exactly the kinds of messages (private, open) and the senders (name or address pattern) the user chose, until undone.",
  H, "for every history of hushes, renames, departures and messages",
  "Tests hush one nickname once.",
  ["server/s_person.c", "server/send.c", "server/s_user.c", "server/namelist.c"], [("private message routing and hush check", "server/send.c, server/s_person.c")])
p("C11", "Groups admit exactly whom their settings allow",
  "A user is in exactly one group; entering a restricted group needs a current invitation (by name or address, and registration where the invitation demands it), moderation of that group or the operator password, and a full moderated or controlled group admits nobody but its moderator. "
  "A refused entry changes nothing; an accepted one is announced to the members of both groups, and a group exists as long as it has members.",
  H, "for every history of group creation, settings, invitations, cancellations, entries, boots and departures",
  "Tests restrict a group once; invitations, size limits and their interplay with renames and registration are histories.",
  ["server/s_group.c", "server/groups.c", "server/namelist.c"], [("group change", "server/s_group.c"), ("invitation lists", "server/s_group.c, server/namelist.c")])
p("C12", "Only a group's moderator exercises its powers, and succession is orderly",
  "Changing a moderated group's settings, topic or moderator, booting and inviting succeed exactly for its moderator (or, where documented, the operator, or anyone while the group is public or has no moderator), and a refused attempt changes nothing. "
  "Moderation passes exactly as asked; when a moderator leaves it goes at once to the least idle member, or, if it was registered, is held for its return for a grace period.",
  H, "for every history of moderation commands by moderators and non-moderators, departures and returns",
  "Tests cover a single pass and boot.",
  ["server/s_group.c", "server/ipcf.c", "server/groups.c", "server/access.c"], [("moderator checks", "server/s_group.c"), ("succession on departure and timeout", "server/ipcf.c")])
p("C13", "Secret and invisible groups stay hidden from outsiders",
  "The name of a secret group, and the very existence of an invisible one, never appears in any listing (other than one asked for by the group's exact name) given to a user who is not in it, not invited to it and not the operator, and nobody enters a hidden group by asking to join one of its members. "
  "Arrivals and departures of users of an invisible group are not notified. Visible groups are always listed.",
  H, "for every history of visibility changes, moves and invitations, and every form of listing or join request",
  "Tests list groups in one visibility state.",
  ["server/s_who.c", "server/s_group.c", "server/msgs.c", "server/ipcf.c"], [("visibility checks in listings", "server/s_who.c"), ("join-by-nickname check", "server/s_group.c, server/msgs.c")])
p("C14", "Controlled and quiet groups let exactly the permitted users speak",
  "In a controlled group an open message is delivered exactly if its sender is the moderator or currently has talk permission (registered, where the permission demands it); in a quiet group nobody's is. "
  "Granting and revoking permission takes effect at once, is reported to the user concerned, and only the moderator can do it; quiet groups do not announce comings and goings.",
  H, "for every history of control and volume changes, grants, revocations, renames and messages",
  "Tests do not exercise talk permission over histories.",
  ["server/msgs.c", "server/s_group.c"], [("talk permission check", "server/msgs.c"), ("talk command", "server/s_group.c")])
p("C15", "A nickname's registration answers only to its password or home address",
  "A user counts as registered exactly if it registered that nickname now, proved its password, or came from the address on file without extra security set; a wrong password never succeeds, never changes the record and loses no access of others. "
  "Changing the password, the security setting or deleting the record needs the proper proof, takes effect immediately, and changing nickname drops the registered status.",
  H, "for every history of registrations, logins from any address, password changes, deletions and renames",
  "Tests register a nickname once.",
  ["server/access.c", "server/s_auto.c", "server/msgs.c", "server/s_user.c"], [("password and home checks", "server/access.c")])
p("C16", "Left messages are delivered once, intact and only to their addressee",
  "A message left for a registered nickname by a registered user is kept until that nickname, registered, reads it, and is then shown once with its true author, in the order left, and removed; others can neither read nor remove it. "
  "The number waiting is reported on registration; at most twenty are kept, and a refused one disturbs nothing.",
  H, "for every history of leaving, reading, logins, deletions and restarts",
  "Tests leave no messages across histories.",
  ["server/access.c", "server/s_auto.c", "server/icbdb.c"], [("message records", "server/access.c")])
p("C17", "Operator commands work only for the operator",
  "Broadcasting, shutting down, restarting, resetting statistics, changing the log level and dropping others without their password take effect exactly for a user holding the operator nickname with the operator password; everyone else is refused and nothing happens. "
  "Anyone may drop a nickname by giving that nickname's password. A scheduled shutdown is announced to everybody and happens at its time.",
  H, "for every history of logins and renames to and from the operator nickname and every operator command by every user",
  "Tests issue operator commands from one fixed session.",
  ["server/s_admin.c", "server/access.c", "server/s_user.c"], [("operator check", "server/access.c")])
p("C18", "What was registered and acknowledged survives a stop or a kill",
  "After the server acknowledged a registration, password, profile, security setting or left message, stopping the server gracefully or killing it at any time between requests and starting it again yields exactly that state: nothing acknowledged is lost, nothing deleted returns, nothing else appears.",
  ["histories", "crash_points"], "for every history of database changes and every point between requests at which the server is stopped or killed",
  "Tests never restart the server.",
  ["server/icbdb.c", "server/icb_dbm.c", "server/access.c"], [("write-through to the database file", "server/icbdb.c, server/icb_dbm.c")],
  observe=("database file read by an independent parser", "frames after restart"))
p("C19", "The nickname database holds exactly what was last stored",
  "Every record reads back exactly as it was last stored, whatever bytes it consists of and however many others there are, until it is changed or deleted, in the running server and after the database is closed and opened again; deleting one removes no other. "
  "The file contains exactly these records, is readable by its owner only, and a damaged file is refused and left as it is.",
  ["histories", "inputs"], "for every history of stores, deletions, lookups and reopenings with every key and value, by the server's requests and by the database code's own callers, and every damaged file",
  "Tests store a handful of short records and never grow, shrink or damage the table.",
  ["server/icb_dbm.c", "server/icbdb.c", "server/access.c"], [("hash table loaded from and written to one file", "server/icb_dbm.c"), ("records of a nickname", "server/icbdb.c")],
  tech="stateful property-based testing against a dictionary and an independent file parser, through the server and on the database code directly",
  observe=("answers of the database code", "database file", "frames received"))
p("C20", "A crash, power failure or full disk never costs or damages a stored record",
  "Whenever the process is killed, the power fails or a write to the database fails, the file on disk stays readable and each record in it has its value from before or after the request being carried out; nothing a completed write put there is lost. "
  "A server that could not write goes on serving, and once it can write again loses nothing.",
  ["fault_sequences", "histories"], "for every history and every call writing the database as the point of a kill (before, during, after), of a power failure losing or garbling what was not yet forced to disk, or of write errors and short writes",
  "Tests inject no fault and kill nothing in the middle of a write.",
  ["server/icb_dbm.c", "server/icbdb.c"], [("write to a temporary file, force it to disk, rename", "server/icb_dbm.c"), ("write after each request", "server/icbdb.c")],
  tech="fault enumeration over generated database histories (every write-side call as crash or failure point) plus random faults in the running server",
  level="fault_enumeration", note="All write-side calls of each generated history (a sample of the middle ones when there are over 60) under three crash forms, two failures; the power-failure model is per-file (rename is atomic and ordered, data of a "
  "file not forced to disk may be missing, zeroed or cut). " + NOTE, observe=("database file after the fault", "answers of a new process that opens it"))
p("C21", "The database tools and the server understand each other",
  "What the support tools list, export, import, migrate, change, prune or delete is exactly what the database holds and exactly what they were asked to; records they were not asked to touch keep every byte, and the server reads what they wrote. "
  "A database they cannot read, or no room to write, leaves the file as it was.",
  ["inputs", "histories", "fault_sequences"], "for every database content (any bytes in values), every sequence of tool runs, every damaged file and a full disk",
  "No test runs the tools.",
  ["support/icbdb.py", "support/dbexport.py", "support/dbimport.py", "support/dbm2icbdb.py", "support/nickprune.py", "support/"], [("Python reader and writer of the file format", "support/icbdb.py")],
  tech="stateful property-based testing of the tools against a dictionary, an independent file parser and the server's own reader",
  observe=("database file", "output and exit status of the tools"))
p("C22", "Text is filtered, cut and split without changing anything else",
  "Text users send passes unchanged except that control characters and ill-formed UTF-8 are replaced or dropped as documented and over-long text is cut between characters; nicknames and group names keep exactly the permitted characters, letter case is folded only for ASCII letters, a text meant as a format accepts only as many string placeholders as it may have, "
  "and packets and commands are split into fields and words at exactly their separators. All that holds for every byte string, without reading or writing beyond it.",
  ["inputs"], "for every byte string of every length, every buffer size and every text operation, and as seen by clients",
  "Unit tests try a few strings; malformed UTF-8 and boundary lengths are combinatorial.",
  ["server/strutil.c", "server/utf8.c", "server/strutil.h"], [("text filters and splitters", "server/strutil.c, server/utf8.c")],
  tech="property-based testing of the text functions against independent implementations, and of the server with hostile text against the reference model",
  observe=("results of the text functions", "frames received"))
p("C23", "Address patterns match exactly what they describe",
  "A pattern (plain characters, ? for any one, * for any number, [...] classes with ranges and negation, a backslash to quote) matches an address exactly if the whole address is of that form; malformed patterns match nothing. "
  "Hush lists, notify lists, invitations and the deny file all decide by exactly this.",
  ["inputs", "histories"], "for every pattern and every text, directly and through every command that takes an address pattern",
  "Unit tests try a few pairs.",
  ["server/wildmat.c", "server/strlist.c", "server/namelist.c", "server/msgs.c"], [("matcher", "server/wildmat.c"), ("lists searched by pattern", "server/strlist.c, server/namelist.c")],
  tech="property-based testing of the matcher against an independent one (set-of-positions), and of the lists that use it against the reference model",
  observe=("results of the matcher", "frames received"))
p("C24", "Bounded name lists keep exactly what was put on them",
  "The hush, notify, invitation and talk lists hold exactly the entries added and not removed since, each once regardless of letter case, most recent first; a full hush or notify list refuses additions, a full invitation or talk list drops its oldest entry. "
  "Matching a name or address against a list is true exactly if some entry on it matches.",
  H, "for every sequence of additions, removals and lookups up to and beyond the limits",
  "Unit tests add a few entries; the limits are never reached through the server.",
  ["server/namelist.c", "server/strlist.c", "server/s_user.c", "server/s_group.c"], [("bounded list", "server/namelist.c")])
p("C25", "Timers act when due, never early, and on the right user",
  "A user idle longer than its group's limit is moved to the idle group once, and never before or where the limit is off; a moderator idle longer than the group's limit loses moderation only to a less idle, non-away member; a departed registered moderator's place is held for exactly the grace period. "
  "Changing a limit takes effect for the time already passed.",
  ["histories", "schedules"], "for every history and every sequence of clock advances, including exact boundaries",
  "Tests cannot wait an hour; the check owns the clock.",
  ["server/ipcf.c", "server/s_group.c"], [("periodic pass", "server/ipcf.c")])
p("C26", "Notifications report exactly the sign-ons and sign-offs asked for",
  "A user is told of a sign-on or sign-off exactly if the nickname or address of the one concerned matches an entry on its notify list at that moment and that user's group is not invisible; each event is told once. "
  "Adding, toggling off and listing entries do what they report.",
  H, "for every history of list changes, patterns, logins and departures",
  "Tests notify on one nickname.",
  ["server/s_user.c", "server/msgs.c", "server/ipcf.c", "server/namelist.c"], [("notify match on login and departure", "server/msgs.c, server/ipcf.c")])
p("C27", "Beeps and pings reach exactly their target and replies the right asker",
  "A beep reaches exactly the named user unless it refuses beeps, in which case the sender is told (and the target too, if it wants to know). A ping reaches exactly the named user; its reply is reported with the true elapsed time to whoever pinged last and is still connected, and to nobody else.",
  H, "for every history of beeps, settings, pings, replies and departures in any order",
  "Tests ping once with both parties present.",
  ["server/s_beep.c", "server/send.c", "server/msgs.c", "server/s_user.c"], [("beep refusal", "server/send.c"), ("ping bookkeeping", "server/s_user.c, server/msgs.c")])
p("C28", "Listings tell the truth about who is where",
  "Every listing shows each user the asker may see exactly once, in its actual group, with its actual nickname, address, idle time, sign-on time, registration, away and TLS state and the actual moderator, topic and settings of each group; totals agree. "
  "Asking where a user is gives its actual address and idle time.",
  H, "for every history, every population and every form of listing",
  "Tests look for one nickname in one listing.",
  ["server/s_who.c", "server/s_info.c", "server/s_stats.c", "server/users.c"], [("who listing", "server/s_who.c")])
p("C29", "Profiles show exactly what their owner last set",
  "Looking up a registered nickname shows exactly the profile fields its owner last set (shortened to the documented limits) and its actual last sign-on and sign-off, whoever asks; only the registered owner can set them. Nicknames not on file are reported as such.",
  H, "for every history of profile changes, lookups, deletions and field contents",
  "Tests set no profile field with unusual content.",
  ["server/access.c", "server/s_auto.c", "server/icbdb.c"], [("profile records and lookup", "server/access.c")])
p("C30", "Site texts and version information are shown as they are on file",
  "The message of the day, the help text and each news item are shown to whoever asks (and the message of the day at every login) line by line exactly as the files contain them, with placeholders expanded and long lines cut; a missing text is reported. Nothing outside those texts can be obtained.",
  ["configurations", "inputs", "histories"], "for every content of the text files, present or absent, and every news item name asked for",
  "Tests use one fixed text.",
  ["server/s_motd.c", "server/s_news.c", "server/s_commands.h"], [("file readers", "server/s_motd.c, server/s_news.c")])
p("C31", "Away messages are given to those who write, without flooding",
  "While a user is away, whoever sends it a private message or beep is answered with exactly its away text and the time it was set, but not again within ten seconds if that correspondent was the last one answered; unsetting it stops that at once. The text is taken literally, and one that cannot be is refused.",
  H + ["schedules"], "for every away text, every history of messages, beeps and clock advances",
  "Tests set one away text and send one message.",
  ["server/s_user.c", "server/s_person.c", "server/s_beep.c"], [("away reply", "server/s_person.c, server/s_user.c")])
p("C32", "A full house refuses newcomers and harms nobody",
  "Once every place is taken, each further connection is told so and closed at once, or closed without a word; nobody already connected is disturbed, loses a message or is mistaken for the newcomer. As soon as somebody leaves, for whatever reason, the place can be used again, any number of times, and neither descriptors nor groups are ever used up for good.",
  H + ["schedules"], "for every history of arrivals and departures around the limit, logged in or not, and everything said meanwhile",
  "Tests have a handful of clients; running out takes hundreds of them and a history that leaks.",
  ["pktserv/pktserv.c", "server/dispatch.c", "server/users.c", "server/groups.c"], [("tables of fixed size", "pktserv/pktserv.c, server/users.c, server/groups.c")])
p("C33", "The server listens exactly where and how it is told, and obeys signals",
  "Started with any command line and certificate file, the server either serves exactly the addresses and ports asked for, plain text on one and TLS (1.2 or later, authenticated and encrypted, with the certificate on file) on the other, or reports failure and ends; it never runs half configured. The termination signals end it in good order and the hangup signal makes it reopen its log, at whatever moment they arrive.",
  ["configurations", "schedules", "inputs"], "for every combination of options, state of ports and certificate file, protocol version and cipher tried, and every moment a signal may arrive at",
  "Tests start the server one way, with one certificate, and never signal it while it is busy.",
  ["server/main.c", "pktserv/pktserv.c", "pktserv/sslconf.c", "server/icbutil.c"], [("start-up", "server/main.c, pktserv/pktserv.c"), ("TLS settings", "pktserv/sslconf.c")])


p("C34", "Users are known by their true network address",
  "Everybody is shown, and matched by addresses on lists, invitations, home addresses and site rules, under the host name of the address they connect from if that name leads back to this address, and under the bracketed numeric address otherwise, whether they come by IPv4 or IPv6. Nobody can pass for a host it does not connect from by controlling the name its address has.",
  H + ["configurations"], "for every assignment of names to addresses (absent, false, ambiguous, another's, long), both address families, and every history of arrivals and uses of addresses",
  "Tests connect from the loopback address alone, whose name is always right.",
  ["pktserv/getrname.c", "server/dispatch.c", "server/s_info.c", "server/access.c", "server/msgs.c"], [("verified reverse lookup", "pktserv/getrname.c"), ("address of a user", "server/dispatch.c, server/users.c")])
p("C35", "A server with nothing to do rests",
  "While no client sends anything complete, takes more of its output, or is due anything by the clock, the server waits and uses practically no processing time. That holds whatever state the connections are in: idle, part of a packet or of an encrypted record sent, a TLS handshake not begun or not finished, output not taken while input waits, or input of a user that is only read slowly.",
  H + ["schedules"], "for every history of clients and every state of connections it leads to, at every moment nothing is due",
  "Tests look at what is answered, not at what the server does in between; a server that spins answers all the same.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/sslsocket.c"], [("what is waited for", "pktserv/pktserv.c")])
p("C36", "Long service does not use up memory",
  "The memory the server uses depends on who is connected and on what is stored, not on how long it has run or how much was said. Repeating any history of clients, all of whom leave or are lost at its end, takes no more memory the tenth time than the third, including connections lost with output waiting, in the middle of a packet or of a TLS handshake, commands refused, and groups and lists made and dropped.",
  H + ["faults"], "for every history of clients, repeated any number of times",
  "Tests run for seconds, and a leak of a few bytes an event shows in no answer.",
  ["pktserv/pktbuffers.c", "pktserv/pktsocket.c", "pktserv/sslsocket.c", "server/namelist.c", "server/s_group.c", "server/icbdb.c"], [("release of buffers and lists", "pktserv/*.c, server/*.c")])
p("C37", "A dump of the server's state is true and harmless",
  "Told by signal to dump its state, the server writes a file, replacing any earlier one, that describes every user logged in and every group exactly as they are at that moment: who and from where, settings, texts, lists, times and moderators, each in its place and nothing after the end. "
  "Whether or not the file can be written, everybody is served afterwards as if it had not been asked.",
  H, "for every history and every moment between requests at which a dump is asked for, whether or not the file exists already or can be written",
  "No test asks for a dump.",
  ["server/icbutil.c", "server/namelist.c"], [("icbdump, walking all tables", "server/icbutil.c")], observe=("the dump file, read by an independent parser", "frames received by every connected client"))
p("C38", "The log tells who came and went, and nobody writes in it but the server",
  "At an information level or above, the log has exactly one entry for each client that connects, passes the login checks, is refused by the deny file, or is lost after that, naming where it came from and its account. "
  "Whatever clients send and whenever the operator changes the level, every line is one whole entry made by the server, with the server's name and the true time, of a severity asked for; nothing is logged that was not asked for, and changing the level costs no descriptor.",
  H, "for every history of clients, hostile text included, and every level and change of level",
  "Tests never read the log.",
  ["server/mdb.c", "server/msgs.c", "server/ipcf.c", "server/send.c", "server/s_admin.c"], [("mdb and its callers", "server/mdb.c")], observe=("the log file, read after each operation", "frames received by every connected client"))


def main(claimed, na=()):
    ids = [q["id"] for q in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in PROPS:
            if q["id"] in claimed or q["id"] in dict(na):
                assert len(q["title"]) <= 80, q["id"]
                f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[dict(property=a, reason=b) for a, b in na])
    for q in PROPS:
        if q["id"] in claimed:
            m["checks"].append(dict(property=q["id"], quick_cmd="python3-vt checks/check.py " + q["id"],
                                    thorough_cmd="python3-vt checks/check.py %s --thorough" % q["id"],
                                    technique=q["_tech"], level=q["_level"], level_note=q["_note"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(V, "lib"))
    import allchecks
    main(set(allchecks.CHECKS))
