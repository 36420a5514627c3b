import json,subprocess
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s"]).decode().splitlines()
M=[("huge payload size","C04","counting the emulation prevention bytes of a SEI with a payload size field of many 0xFF bytes overflowed an int"),("public key there was no memory for","C03","a public key that could not be copied for lack of memory kept its size, so a NULL key of that size was used"),("SEI at the end of a stream","C24","the SEI made at the end of a stream carried the GOP hash of the GOP before, so an authentic last GOP without hash list was reported not OK"),("no memory for a SEI to prepend","C14","without memory a SEI was announced but not handed out"),("missing items were added after it","C23","an old stream with lost NALUs after its SEI left a pointer to a dead stack frame in the list"),("change of public key visible until","C18","a change of public key was hidden when the next GOP was validated before the report"),("failed its last verification","C23","a NALU of an old stream that failed stayed in the list forever and made every later GOP not OK"),("once it has been repeated","C23","a tampered GOP of an old stream was reported as only signed when the first validation had been repeated"),("several GOPs of an old stream","C23","a change of key or a GOP that was not OK was overwritten by the next GOP before the report"),("legacy public key tag","C03","a one byte public key tag of an old stream moved a pointer outside the data"),("another size also when its slot","C16","a hash of another size was accepted and overflowed the worker memory"),("local signing session","C16","a local session that could not be set up was leaked"),("message digest context when tearing","C19","the message digest context leaked"),("allocation of the attested data","C19","a failed allocation of the attested data was written to"),("exceeds the supported number","C19","a surplus certificate leaked"),("reference to a replaced public key","C19","the attestation was checked with a freed public key"),("refusing the certificate chain","C17","a refused call had nevertheless set the attestation"),("with the public key in use","C19","the attestation was checked with an old, possibly freed, public key"),("empty directory name","C22","a key generated in a directory with empty name read before the string"),("keep the old signature memory","C17","a private key that could not be set took the signature memory and public key of the session with it"),("count frames unsigned","C02","the signed frame counter overflowed after 2^31 frames"),("in all hashing contexts","C22","hashing contexts kept the old algorithm, and a bad OID was accepted the second time"),("hash list of a previous SEI","C08","a replayed GOP was reported OK against the hash list of the previous SEI"),("nothing has been validated","C10","a validation of nothing overwrote the accumulated result"),("version mismatch in the accumulated","C10","the accumulated result hid a version mismatch"),("hashable data without emulation","C12","a kept SEI pointed at freed or unrelated memory"),("SEI without content","C04","a SEI without content asserted"),("null pointer NALU","C13","a missing item was dereferenced when a GOP without SEI was marked"),("signature could not be verified","C08","a GOP with a malformed signature was reported OK"),("incorrect signature is not OK","C08","a SEI with incorrect signature and no NALUs was reported OK"),("only its SEI was received","C08","a GOP of which only the SEI was received was reported OK"),("TLV header and length","C03","a TLV length beyond the SEI read outside the payload"),("vendor tags in the vendor table","C03","decoding a vendor tag as optional tag indexed outside the table"),("tlv_find_tag","C03","searching a tag scanned past the end of the SEI"),("GENERAL_TAG","C03","short or long GENERAL tags read/wrote outside memory"),("public key, signature and crypto","C03","short public key, signature and crypto tags read outside the payload"),("product info strings","C03","product info strings without terminator or outside the tag"),("TLVs of legacy","C03","same as above in the legacy decoder"),("parsing it in legacy","C04","legacy NALU parser read outside short NAL units"),("never read outside the NALU when parsing it","C04","NALU parser read outside short NAL units"),("endless validation loop","C13","validation never returned when more than one GOP was lost before a SEI"),("GOP counter","C11","signed overflow when the GOP counter wrapped around"),("worst case number of emulation","C06","heap overflow when the SEI payload needs many emulation prevention bytes"),("SEI without signature from the buffer","C14","use after free of a SEI whose signature could not be added"),("threaded signing plugin","C16","the threaded plugin read past its input buffer"),("trailing zeros","C04","an empty last NALU part made the parser read before it"),("Axis Communications vendor tag","C03","vendor tag sizes were not checked"),("serial number","C19","stack overflow with a long serial number in the attestation certificate"),("OID is not a digest","C22","an OID that is no digest was accepted as hash algorithm"),("before moving past the algo","C03","a pointer beyond the public key tag was formed"),("version mismatch","C20","a newer signing version was never reported as version mismatch")]
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    m=[x for x in M if x[0] in s]
    assert m,s
    fixed.append("fixed: property=%s %s %s"%(m[0][1],h,m[0][2]))
json.dump({"findings":json.load(open("known_findings.json"))["findings"] if __import__("os").path.exists("known_findings.json") else [],"fixed":fixed},open("known_findings.json","w"),indent=1)
