import subprocess,json,re
rules=[("aho_corasick",["C17"]),("lru::",["C15"]),("mprpc",["C51"]),("mutex: read holder",["C01","C09"]),("rw_mutex",["C03"]),("qsem",["C07"]),("md5",["C09","C14"]),("code:",["C12"]),("base64",["C13"]),("strip:",["C20"]),("kmp",["C17"]),("longest_increasing",["C18"]),("serialization:",["C11"]),("intern:",["C11"]),("hankaku",["C19"]),("csv",["C24"]),("json: print",["C25"]),("json: skip",["C25"]),("json: require",["C26"]),("json: accept sub",["C25"]),("json: refuse documents",["C26"]),("json_cast",["C27"]),("to_json",["C27"]),("ratio",["C32"]),("vector:",["C32"]),("fft2d",["C31"]),("mmapper",["C34"]),("calendar_time",["C33"]),("uri:",["C35"]),("ipv4",["C43"]),("stream_socket",["C36"]),("server_socket",["C36"]),("socketstream",["C37"]),("http:",["C38"]),("cached_dns",["C40"]),("rpc_server",["C39"]),("cgi run_server",["C42"]),("cgi:",["C41"]),("run_fcgi",["C52"]),("statements take ten",["C50"]),("a NULL argument",["C50"]),("MySQL statements without",["C50"]),("PostgreSQL statements without",["C50"]),("MySQL buffers",["C50"]),("VARCHAR",["C50"]),("unsigned columns",["C50"]),("mysql prepare reconnects",["C53"]),("a MySQL statement without field",["C53"]),("a MySQL transaction",["C53"]),("a PostgreSQL connection that",["C53"]),("PostgreSQL columns of other",["C50"]),("floats",["C50"]),("PostgreSQL timestamps",["C50"]),("question marks",["C50"]),("PostgreSQL connection param",["C50"]),("a column that is no",["C50"]),("a PostgreSQL statement executes",["C50"]),("the rest of a transaction",["C53"])]
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    for k,ps in rules:
        if s.startswith(k):
            for p in ps: out.append("fixed: property=%s %s %s"%(p,h,s))
            break
    else: raise SystemExit(s)
json.dump({"findings":[],"fixed":out},open('/verif/known_findings.json','w'),indent=1)
print(len(out))
