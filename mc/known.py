import subprocess,re
m={ "never signal a reaped":("P09","a kill could signal an already reaped (possibly recycled) pid, a kill of several sessions stopped at the first failing one"),
"one failing client":("P02","an I/O error of one client ended the session's output thread, leaving the session unusable (also P07, P14)"),
"deliver the shell's final":("P03","output written just before the shell exited was lost or came after the exit status (also P06)"),
"answer detach and resize":("P07","detach and resize requests for a session with a stuck client were never answered and wedged the daemon (also P08, P14, P25)"),
"report the exit status":("P06","a shell exiting while a client reattaches left that client without its exit status"),
"do not hang up on a client":("P03","a client slow to read a heartbeat was disconnected and lost output"),
"never start two shells":("P01","two concurrent attaches could start two shells for one name, and the end of one session unwound another of the same name (also P02)"),
"list the attachment":("P11","a list reply combined the attachment status and details of different moments"),
"answer variable changes":("P13","a variable change was not answered while some session was busy, and later changes were dropped"),
"only end a session once":("P10","an expired time to live could kill a later session of the same name, or be missed"),
"catch up clients":("P23","a client attaching while a variable changed stayed in the old session"),
"list a session as disconnected":("P11","a session was listed as disconnected (and its event sent) before it could be attached again (also P12)"),
"match key bindings and":("P05","bindings were missed or fired at other keys, input around them and output of a failed prompt set-up was lost (also P04, P24, P27)"),
}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','0fc49ef..'],capture_output=True,text=True).stdout
import json
extra=json.load(open('/verif/mc/known_extra.json'))
m.update({k:tuple(v) for k,v in extra.get("fixed",{}).items()})
out="# Genuine defects found by the checks.\n# fixed: repaired by the given commit of /repo; suppresses nothing.\n# known: recorded, still present; only an identical signature is tolerated.\n"
for l in log.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    k=[x for x in m if x in s]
    if not k: print('UNMAPPED',s); continue
    p,t=m[k[0]]
    out+=f"fixed: property={p} {h} {t}\n"
for x in extra.get("known",[]): out+=x+"\n"
open('/verif/known-findings.txt','w').write(out)
