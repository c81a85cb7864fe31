// ---- exploration (member of Exec)
static const char *whyName(int w){ static const char*n[]={"done","assume","error","limit","incomplete"}; return n[w]; }
void finishWitness(){
  if(optWitness<=0) return;
  rng^=rng<<13; rng^=rng>>7; rng^=rng<<17;
  size_t pos; if(witnesses.size()<(size_t)optWitness) { pos=witnesses.size(); witnesses.push_back(""); } else { uint64_t k=rng%(st.paths+1); if(k>=(uint64_t)optWitness) return; pos=k; }
  std::string s=inputStr(); s+="#obs\n"; for(auto&o:obs){ char b[32]; snprintf(b,32,"%llx\n",(unsigned long long)ev(o)); s+=b; } witnesses[pos]=s; }
void runOne(Func*entry,Pending&p){
  prefix=std::move(p.d); model=std::move(p.m);
  int why=0;
  try { runPath(entry); } catch(PathEnd&e){ why=e.why; }
  if(why==0){ st.paths++; finishWitness(); } else if(why==1) st.pathsDead++; else { st.paths++; }
  pathErrs[whyName(why)]++;
}
// shared queue of pending prefixes
void shPut(const Pending&p){ uint32_t nd=p.d.size(), nm=p.m.size(); size_t n=8+nd*16+nm*8; n=(n+7)&~7ull; if(SH->qtail+n>SH->cap) { stack.insert(stack.begin(),p); return; } char*b=SH->buf+SH->qtail; memcpy(b,&nd,4); memcpy(b+4,&nm,4); b+=8; for(auto&d:p.d){ uint64_t t=d.kind|((uint64_t)d.side<<8); memcpy(b,&t,8); memcpy(b+8,&d.v,8); b+=16; } memcpy(b,p.m.data(),nm*8); SH->qtail+=n; }
bool shGet(Pending&p){ if(SH->qhead>=SH->qtail){ SH->qhead=SH->qtail=0; return false; } char*b=SH->buf+SH->qhead; uint32_t nd,nm; memcpy(&nd,b,4); memcpy(&nm,b+4,4); size_t n=8+nd*16+nm*8; n=(n+7)&~7ull; b+=8; p.d.resize(nd); for(auto&d:p.d){ uint64_t t; memcpy(&t,b,8); memcpy(&d.v,b+8,8); d.kind=t&255; d.side=(t>>8)&255; b+=16; } p.m.resize(nm); memcpy(p.m.data(),b,nm*8); SH->qhead+=n; return true; }
bool timedOut=false;
void worker(Func*entry){
  bool idle=false;
  while(true){
    if(SH->stop||nowS()>SH->deadline||SH->paths>optMaxPaths){ if(!stack.empty()&&!SH->stop){ timedOut=true; } pthread_mutex_lock(&SH->mu); if(SH->qhead<SH->qtail&&!SH->stop) timedOut=true; pthread_mutex_unlock(&SH->mu); if(nowS()>SH->deadline) { } break; }
    Pending p; bool have=false;
    if(!stack.empty()){ p=std::move(stack.back()); stack.pop_back(); have=true; }
    else { pthread_mutex_lock(&SH->mu); have=shGet(p); if(have&&idle){ SH->idle--; idle=false; } else if(!have&&!idle){ SH->idle++; idle=true; } bool fin=!have&&SH->idle==SH->nworkers; pthread_mutex_unlock(&SH->mu); if(fin) break; if(!have){ usleep(500); continue; } }
    runOne(entry,p); __sync_fetch_and_add(&SH->paths,1);
    if(SH->idle>0&&stack.size()>1){ pthread_mutex_lock(&SH->mu); size_t give=std::min<size_t>(stack.size()-1, (size_t)SH->idle*2); for(size_t i=0;i<give;i++) { Pending q=std::move(stack.front()); stack.erase(stack.begin()); shPut(q); } pthread_mutex_unlock(&SH->mu); }
  }
}
std::string report(){
  std::string s="{";
  auto num=[&](const char*k,double v){ char b[96]; snprintf(b,96,"\"%s\":%.6f,",k,v); s+=b; }; auto inum=[&](const char*k,uint64_t v){ char b[96]; snprintf(b,96,"\"%s\":%llu,",k,(unsigned long long)v); s+=b; };
  inum("paths",st.paths); inum("pathsDead",st.pathsDead); inum("insts",st.insts); inum("forks",st.forks); inum("branches",st.branches); inum("obligations",st.oblig); inum("obligConcrete",st.obligConc); inum("obligDischarged",st.obligDis); inum("violations",st.viol); inum("incomplete",st.incomplete); inum("timedOut",timedOut?1:0);
  inum("queries",S.st.queries); inum("sat",S.st.sat); inum("unsat",S.st.unsat); inum("unknown",S.st.unknown); inum("cacheHits",S.st.cacheHits); num("solverTime",S.st.time); num("maxQuery",S.st.maxq);
  s+="\"covers\":{"; bool f=true; for(auto&c:covers){ s+=(f?"":",")+std::string("\"")+jesc(c.first)+"\":"+std::to_string(c.second); f=false; } s+="},";
  s+="\"why\":{"; f=true; for(auto&c:incompleteWhy){ s+=(f?"":",")+std::string("\"")+jesc(c.first)+"\":"+std::to_string(c.second); f=false; } s+="},";
  s+="\"ends\":{"; f=true; for(auto&c:pathErrs){ s+=(f?"":",")+std::string("\"")+jesc(c.first)+"\":"+std::to_string(c.second); f=false; } s+="},";
  s+="\"funcs\":{"; f=true; for(auto&fp:funcs){ Func*fn=fp.second; if(!fn->entered) continue; uint64_t hit=0; for(auto&i:fn->code) hit+= i.hits>0; std::string file="?"; if(auto*sp=fn->f->getSubprogram()) file=sp->getFilename().str(); s+=(f?"":",")+std::string("\"")+jesc(fn->name)+"\":["+std::to_string(hit)+","+std::to_string(fn->code.size())+",\""+jesc(file)+"\"]"; f=false; } s+="},";
  s+="\"viol\":["; f=true; for(auto&v:viols){ s+=(f?"":",")+std::string("{\"kind\":\"")+jesc(v.kind)+"\",\"msg\":\""+jesc(v.msg)+"\",\"where\":\""+jesc(v.where)+"\",\"stack\":\""+jesc(v.stack)+"\",\"inputs\":\""+jesc(v.inputs)+"\"}"; f=false; } s+="],";
  s+="\"witnesses\":["; f=true; for(auto&w:witnesses){ s+=(f?"":",")+std::string("\"")+jesc(w)+"\""; f=false; } s+="]}";
  return s; }
int exploreAll(Func*entry){
  size_t cap=256u<<20; SH=(Shared*)mmap(0,sizeof(Shared)+cap,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); SH->cap=cap; pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at,PTHREAD_PROCESS_SHARED); pthread_mutex_init(&SH->mu,&at); SH->deadline=tStart+optTime; SH->nworkers=optJobs; rng^=optSeed*0x9E3779B97F4A7C15ull;
  stack.push_back(Pending());
  if(optJobs<=1){ SH->nworkers=1; worker(entry); FILE*o=fopen(optOut.c_str(),"w"); std::string r=report(); fprintf(o,"%s\n",r.c_str()); fclose(o); return 0; }
  // breadth-first seed phase
  int n=0; while(!stack.empty()&&n<40&&(int)stack.size()<optJobs*2&&!SH->stop&&nowS()<SH->deadline){ Pending p=std::move(stack.front()); stack.erase(stack.begin()); runOne(entry,p); n++; SH->paths++; }
  if(nowS()>SH->deadline&&!stack.empty()) timedOut=true;
  { std::vector<Pending> rest; rest.swap(stack); for(auto&p:rest) shPut(p); }
  FILE*o=fopen(optOut.c_str(),"w"); std::string r=report(); fprintf(o,"%s\n",r.c_str()); fclose(o);
  if(SH->qtail==0&&stack.empty()) return 0;
  std::vector<pid_t> pids; for(int w=0;w<optJobs;w++){ pid_t pid=fork(); if(pid==0){ prctl_die(); alarm((unsigned)(std::max(0.0,SH->deadline-nowS())+30)); if(w>0) stack.clear(); // keep own copy of z3: recreate
        st=Stats(); viols.clear(); witnesses.clear(); covers.clear(); incompleteWhy.clear(); pathErrs.clear(); S.st=SolverStats(); timedOut=false; rng+=w*7919; for(auto&fp:funcs) for(auto&i:fp.second->code) i.hits=0;
        worker(entry); std::string rr=report(); std::string fn=optOut+"."+std::to_string(w); FILE*ff=fopen(fn.c_str(),"w"); fprintf(ff,"%s\n",rr.c_str()); fclose(ff); _exit(0); } pids.push_back(pid); }
  int bad=0; for(size_t w=0;w<pids.size();w++){ int stt; waitpid(pids[w],&stt,0); if(!WIFEXITED(stt)||WEXITSTATUS(stt)) bad++; }
  o=fopen(optOut.c_str(),"a"); for(size_t w=0;w<pids.size();w++){ std::string fn=optOut+"."+std::to_string(w); FILE*ff=fopen(fn.c_str(),"r"); if(ff){ char buf[65536]; size_t k; while((k=fread(buf,1,sizeof buf,ff))>0) fwrite(buf,1,k,o); fclose(ff); unlink(fn.c_str()); } }
  if(bad) fprintf(o,"{\"crashed\":%d}\n",bad);
  fclose(o); return bad?3:0; }
static void prctl_die(){ prctl(PR_SET_PDEATHSIG,SIGKILL); }
