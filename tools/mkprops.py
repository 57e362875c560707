import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Static-Huffman round trip is lossless (lh5, lh6, lh7)",
 "For every byte content and each of the methods lh5, lh6 and lh7, compressing the content and then decompressing the result yields exactly the original bytes, with the original length and checksum reported. This holds for contents of every size, including ones larger than the sliding dictionary and ones that need several Huffman blocks.",
 ["inputs","configurations"],"every byte sequence x {lh5,lh6,lh7}, through both the in-memory and the file interface",
 "The tests compress nothing real (the one source file named does not exist) and never decompress what was compressed; no finite sample reaches every match length/offset, table shape and window position.",
 ["slide.go","huf.go","maketree.go","maketbl.go","bitio.go","append.go","extract.go","lha.go"],
 [("LZ77 match finder and sliding window","slide.go:encode/searchDict/updateDict"),("block Huffman coder","huf.go:sendBlock/decodeCSt1"),("tree construction and canonical tables","maketree.go, maketbl.go"),("bit stream","bitio.go")],
 [("text/hash/prevs","encoder window and hash chains","append.go, slide.go"),("dtext/loc","decoder window","slide.go:decode")],
 ["Compress/CompressBytes then Headers/DecompresBytes/Decompress","EncodeLzhuf/DecodeLzhuf"])
p("C02","Adaptive-Huffman round trip is lossless (lh1)",
 "For every byte content, compressing with method lh1 and then decompressing yields exactly the original bytes, with the original length and checksum reported. Encoder and decoder keep identical adaptive trees for the whole stream, including after the tree is rebuilt when its total frequency reaches its ceiling.",
 ["inputs"],"every byte sequence, any length (including more than 32768 symbols, which forces tree rebuilds)",
 "No test uses lh1; the adaptive tree depends on the entire symbol history, so only an invariant over all histories settles it.",
 ["dhuf.go","shuf.go","slide.go","append.go","extract.go"],
 [("adaptive tree update and rebuild","dhuf.go:updateC/swapInc/reconst"),("fixed position code","shuf.go:readyMade/encodePSt0/decodePSt0"),("method dispatch","slide.go:encodeStart/encodeOuput/encodeEnd")],
 [("child/parent/block/edge/freq","adaptive Huffman tree","dhuf.go")],
 ["Compress/CompressBytes/EncodeLzhuf with lh1"])
p("C03","Stored fallback: never larger than the input, still lossless",
 "Whatever the content and requested method, the packed data of an added member is never larger than the content. When compression does not pay off (incompressible, tiny or empty content, or a stored or unsupported method was requested) the member is recorded as stored, its packed bytes are exactly the content, its checksum is that of the content, and extracting it returns the content.",
 ["inputs","configurations"],"every content x every requested method number x header level",
 "Tests never add incompressible, tiny or empty data and never look at the packed size; the fallback is a second pass over the same input that only triggers on particular contents.",
 ["lhext.go","append.go","util.go","bitio.go"],
 [("unpackable detection","bitio.go:putcode"),("retry as stored","lhext.go:addOne, util.go:encodeStoredCrc"),("bounded copy with checksum","util.go:copyfile")],
 None,["archive bytes, member header, extracted content"])
p("C04","Compressed members are standard LHA data any conforming reader decodes",
 "For every content and each of the methods lh1, lh5, lh6 and lh7, the packed bytes written are a legal stream of the announced method: decoding them by the format's own rules gives exactly the content and consumes the announced packed size. The recorded checksum is the CRC-16 (ARC) of the content.",
 ["inputs","configurations"],"every content x {lh1,lh5,lh6,lh7}",
 "A round-trip test cannot see a deviation that encoder and decoder share; no test compares the bytes with the format.",
 ["slide.go","huf.go","dhuf.go","shuf.go","maketree.go","bitio.go","crcio.go"],
 [("token emission","huf.go:outputSt1/sendBlock, dhuf.go:outputDyn"),("code-length transmission","huf.go:writePtLen/writeCLen"),("checksum","crcio.go:calcCrc")],
 None,["packed bytes of the archive / EncodeLzhuf output"])
p("C05","Every conforming lh4-lh7 stream decodes to its defined content",
 "For every legal lh4, lh5, lh6 or lh7 stream, from any encoder, decompression yields exactly the bytes the format defines and the checksum of those bytes. This includes one-symbol tables, code lengths up to 16 bits, every run-length form, many blocks, overlapping matches, and matches that reach before the start of the data.",
 ["inputs"],"every legal block-Huffman bit stream",
 "The single archive in the repository exercises one table shape of one method; most legal constructs are never produced by this encoder.",
 ["huf.go","maketbl.go","slide.go","bitio.go"],
 [("table reading","huf.go:readPtLen/readCLen"),("table construction","maketbl.go:makeTable"),("symbol decoding","huf.go:decodeCSt1/decodePSt1"),("window copy","slide.go:decode")],
 None,["DecodeLzhuf, DecompresBytes"])
p("C06","Every conforming lh1-lh3 stream decodes to its defined content",
 "For every legal lh1, lh2 or lh3 stream, from any encoder, decompression yields exactly the bytes the format defines and the checksum of those bytes.",
 ["inputs"],"every legal lh1, lh2, lh3 bit stream",
 "No test data exists for these methods, and the repository has no encoder for lh2 and lh3.",
 ["dhuf.go","shuf.go","maketbl.go","slide.go"],
 [("adaptive trees for characters and positions","dhuf.go"),("static trees read from the stream","shuf.go:readTreeC/readTreeP/decodeCSt0/decodePSt0")],
 None,["DecodeLzhuf, DecompresBytes"])
p("C07","Stored, LArc and PMarc members decode to their defined content",
 "For every legal lh0, lz4, pm0, lzs, lz5 or pm2 member, decompression yields exactly the bytes the format defines and the checksum of those bytes, reading no byte beyond the member.",
 ["inputs"],"every legal stream of these six methods",
 "No test data exists for any of these methods and the repository has no encoder for most of them.",
 ["larc.go","pm.go","pm2hist.go","pmtree.go","util.go","extract.go"],
 [("LArc decoders","larc.go"),("PMarc decoder with move-to-front history","pm.go, pm2hist.go, pmtree.go"),("stored copy","util.go:copyfile")],
 None,["DecodeLzhuf, DecompresBytes"])
p("C08","Member metadata survives writing and re-reading at every header level",
 "For header levels 0, 1 and 2, a member added to an archive is listed with the name, original size, packed size, method, checksum, modification time and (except in generic format) permissions and owner that it had when added. The header written is well-formed by the format: sizes, checksum or header CRC are right and the member's data starts exactly where the header says.",
 ["inputs","configurations"],"every member (name, size, time, permissions, owner) x level 0-2 x generic format on/off",
 "Tests add with level 2 but never read the result back; name lengths, dates and the position of the data depend on the whole header layout.",
 ["header.go","lhext.go"],
 [("header serialisation","header.go:WriteHeader/writeHeaderLevel0..2/writeUnixInfo"),("field capture","header.go:initHeader")],
 None,["archive bytes, Headers()"])
p("C09","Headers of every level and extension are read as the format defines",
 "For every well-formed archive with header levels 0 to 3, listing returns one header per member, in order, whose name (directory part included), method, sizes, time, attribute, permissions, owner and checksum are those the format assigns to the bytes, whatever optional or unknown extension fields are present; in a self-extracting archive the members are those behind the program. A member whose header checksum, header CRC or sizes are inconsistent is reported as an error, not listed as if it were sound.",
 ["inputs"],"every sequence of well-formed headers, and every single inconsistency in one",
 "The test archive has one level-0 header; levels 1 to 3, extension headers and multi-member archives are not touched.",
 ["header.go","lha.go","lhext.go"],
 [("level parsers","header.go:getHeaderLevel0..3"),("extension headers","header.go:getExtendedHeader"),("walk over members","lha.go:Headers, lhext.go:CommandList")],
 None,["Headers(), GetHeader"])
p("C10","Content that does not match its checksum is never delivered as good",
 "Whenever a member's header carries a checksum and the decoded bytes do not have that checksum, every interface that decodes it (listing with verification, extraction to memory, extraction to file, test) reports an error. Conversely an intact member is never reported as corrupt.",
 ["inputs","fault_sequences"],"every archive and every corruption of its packed data or recorded checksum x every decoding interface",
 "No test feeds a corrupt archive.",
 ["lhext.go","crcio.go","extract.go"],
 [("checksum comparison","lhext.go:extractOne/extractOneStream"),("running checksum","crcio.go:fwriteCrc, util.go:copyfile")],
 None,["errors of Headers, DecompresBytes, Decompress, CommandExtract"])
p("C11","A truncated archive is reported, never taken for complete",
 "For every archive and every proper prefix of it that cuts a member's header or packed data, listing and extraction report an error rather than success. Members wholly before the cut are still delivered intact.",
 ["inputs","crash_points"],"every archive x every cut position",
 "No test truncates anything; the outcome depends on where in header, table, or token the cut falls.",
 ["header.go","lha.go","lhext.go","bitio.go","util.go","larc.go"],
 [("short-read detection","bitio.go:fillbuf, header.go, util.go:copyfile"),("skip to next member","lhext.go:skipToNextpos")],
 None,["errors and results of Headers, DecompresBytes, Decompress"])
p("C12","Arbitrary input never crashes or hangs the reader",
 "For every byte sequence given as an archive, listing, testing and extracting it terminate with a result or an error: no panic, no endless loop. No more output is written than the header of the member announces, to within the one match (256 bytes at most) that overruns it and is reported as an error.",
 ["inputs"],"every byte sequence, in particular corrupted and hostile archives",
 "No test feeds malformed data; there are unboundedly many ways for a table, length or offset to be wrong.",
 ["header.go","huf.go","maketbl.go","dhuf.go","shuf.go","larc.go","pm.go","pmtree.go","slide.go","lhext.go"],
 [("table validation","maketbl.go:makeTable, pmtree.go:treeRebuild"),("bounds on header fields","header.go")],
 None,["process outcome of Headers, DecompresBytes, Decompress, CommandList"])
p("C13","An archive is a faithful map through any history of adds and reads",
 "After any sequence of adding and re-adding members, the archive lists exactly one member per name (in order of name when sorting is on, otherwise those kept in their old order and then those added), each holding the content of its latest add and every other member unchanged (a directory added recursively brings everything in it that is not excluded, and never the archive itself; the files of one addition have different base names). Extracting any listed member returns that content, and listing, extraction and failed or no-op operations do not change the archive. Adding to a self-extracting archive leaves it as it is and writes the new archive beside it.",
 ["histories","inputs"],"every finite sequence of add / replace / list / extract operations, on one or several handles",
 "Tests perform single operations on a fresh archive; they never add to an existing archive.",
 ["lhext.go","lha.go","append.go"],
 [("merge of old archive and new member","lhext.go:appendIt/appendBytes/copyOldOne"),("rewrite of the member header after packing","lhext.go:addOne"),("end mark","lhext.go:writeArchiveTail")],
 [("archive","sequence of members","archive file")],["archive bytes after each operation"])
p("C14","Archive update is all-or-nothing under crashes and write failures",
 "If adding a member is interrupted at any point, or fails because a file cannot be read, created or written, the archive path still holds the complete previous archive (or no archive when there was none), and otherwise the complete new one. A failure to write is reported as an error, and a reported failure leaves no temporary file behind.",
 ["crash_points","fault_sequences","histories"],"every kill point and every failing write during an update, for new and existing archives",
 "Tests never interrupt or fail a write.",
 ["lhext.go","lha.go","bitio.go"],
 [("temporary file and rename","lhext.go:buildTemporaryFile/CommandAdd/compressBytes"),("write error propagation","bitio.go:putcode, lhext.go:addOne")],
 [("archive path","old / new content","file system"),("temporary file","new archive under construction","file system")],["file system after the fault"])
p("C15","Extraction never writes outside the extraction directory",
 "For every archive, whatever names, absolute paths, dot-dot components, separators or symbolic links its members use, extraction creates and modifies files only inside the extraction directory (the working directory by default). A member that would escape is rejected with an error.",
 ["inputs","histories"],"every member-name sequence and every order of symlink, directory and file members, with and without an explicit extraction directory",
 "The only member name tested is a plain file name.",
 ["lhext.go","header.go"],
 [("dot-dot check","lhext.go:isDirectoryTraversal"),("symlink check on each path component","lhext.go:makeNameWithPathcheck"),("separator conversion","header.go:convertFilename")],
 None,["file system outside the extraction directory"])
p("C16","Extraction puts every member at its own path and respects existing files",
 "Extracting an archive creates, for every member, a file at the member's own relative path holding the member's content, with its recorded modification time and permissions. A file that already exists is replaced only when forced, when the user answers yes (or all), or, once the user has answered skip, when the member is newer than it; after any other answer, or none, it is left exactly as it was. A member that cannot be put at its place (something is in the way, it cannot be written in full) is reported as an error.",
 ["inputs","histories","configurations"],"every set of member paths x every pre-existing file set x force flag x every answer sequence",
 "The test extracts one plain name into an empty place and does not look at the result.",
 ["lhext.go"],
 [("overwrite inquiry","lhext.go:inquireExtract/inquire"),("path creation","lhext.go:openWithMakePath/makeParentPath"),("metadata restoration","lhext.go:adjustInfo")],
 None,["file system after extraction"])
p("C17","The outcome of an operation does not depend on earlier operations",
 "Whatever sequence of compressions, decompressions and listings (any methods, sizes, header levels, including failed ones) the process has performed before, each operation gives the same bytes and the same result it would give in a fresh process.",
 ["histories"],"every sequence of operations in one process, on one or several handles",
 "Each test performs one operation of one method; the codec keeps its tables, windows and modes in shared state.",
 ["append.go","slide.go","huf.go","dhuf.go","shuf.go","lha.go","header.go"],
 [("per-operation initialisation","append.go:encodeAlloc, slide.go:encode/decode, decodeStart*/encodeStart*"),("mode flags reset","lha.go:Headers")],
 [("package-level buffers and tables","shared codec state","append.go, huf.go, dhuf.go, macro.go")],["results of each operation in a history vs. in a fresh process"])
p("C18","Listing, testing and in-memory extraction change nothing on disk",
 "Listing headers, printing the list, testing an archive, printing members to standard output and extracting to memory never create, modify or delete any file, and no-execute runs of adding or extracting do not either.",
 ["inputs","histories"],"every archive (sound or not) x every read-only operation, after any history",
 "Tests do not look at the file system after listing.",
 ["lha.go","lhext.go","crcio.go","util.go"],
 [("verify mode suppresses output","crcio.go:fwriteCrc, util.go:copyfile"),("no-execute guards","lhext.go")],
 None,["file system before and after"])
p("C19","The command-line tool reports what happened",
 "The command-line tool exits with status 0 exactly when the requested list, test, extract, print or add operation succeeded. Listing shows every member once with its name, permissions, owner, sizes and ratio (with -lv also method and checksum, with -v the header level) and a correct total, and printing writes exactly the members' contents, reporting output that cannot be written. Adding, updating, moving and extracting by the command, with its options, leave the archive and the files as the operation documents.",
 ["inputs","configurations"],"every archive x command x option set",
 "There is no test of the command.",
 ["cmd/lharc.go","lhext.go"],
 [("command dispatch and exit status","cmd/lharc.go:main"),("listing","lhext.go:CommandList/listOne/listTailer")],
 None,["exit status and standard output of the built command"])
p("C20","Moving files into an archive never loses one",
 "When files are moved into an archive (added and then deleted), a file is deleted only once the archive that contains it is in place at its path. Interrupted at any point, or failing for any reason, the move leaves every file either where it was or complete in the archive; after a reported failure every file is where it was. After success exactly the files that were archived are gone; every other file, a backup just made included, is still there.",
 ["crash_points","fault_sequences","inputs"],"every kill point and failing call during a move, for every set of sources (missing, excluded, unreadable ones among them)",
 "No test moves anything, and the moment of deletion matters only if the process is interrupted or a later file fails.",
 ["lhext.go"],
 [("deletion after the rename","lhext.go:CommandAdd/removeFiles"),("what counts as archived","lhext.go:appendIt")],
 None,["system calls and files left after a move that is interrupted, fails or succeeds"])
p("C21","An operation releases every file it opens",
 "Adding files or bytes, extracting, listing, reading members and copying a file leave exactly those files open in the process that were open before the call: nothing stays open after success, and nothing after a failure of any kind (an archive that is damaged, cut short or missing, a source that is missing or unreadable, a destination that cannot be written, a full disk). No file that the caller had open is closed.",
 ["inputs","fault_sequences","histories"],"every archive, tree of files and failing call, for every operation and every sequence of them",
 "The tests never look at what stays open, and a leak on a failing path shows only after thousands of calls of a long-running process.",
 ["lhext.go","lha.go"],
 [("closing on every path","lhext.go:CommandAdd/CommandExtract/appendOne, lha.go:Headers/DecompresBytes")],
 None,["open files of the process before and after each call"])
with open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
