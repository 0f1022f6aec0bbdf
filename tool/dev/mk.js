// node mk.js defs.js : writes /verif/seeded/<name>
const fs=require('fs'),cp=require('child_process');
for(const d of require(process.argv[2])){ if(process.argv[3]&&!d.name.includes(process.argv[3]))continue;
 const S='/tmp/seed/'+d.name; fs.rmSync(S,{recursive:true,force:true}); fs.mkdirSync(S,{recursive:true});
 const edits=d.edits||[[d.file,d.from,d.to]];
 fs.writeFileSync(S+'/e.json',JSON.stringify(edits));
 fs.writeFileSync(S+'/edit.sh',`node -e 'const fs=require("fs");for(const [f,a,b] of JSON.parse(fs.readFileSync("${S}/e.json"))){const s=fs.readFileSync(f,"utf8");if(s.split(a).length!==2){console.error("MATCH",f,s.split(a).length-1);process.exit(1)}fs.writeFileSync(f,s.replace(a,()=>b))}'`);
 fs.writeFileSync(S+'/demo.js',`'use strict';\n// ${d.breaks}\nconst W = require('./world');\n${d.demo.trim()}\n`);
 fs.writeFileSync(S+'/meta.json',JSON.stringify({property:d.property,needs:d.needs,what_it_breaks:d.breaks},null,1)+'\n');
 try{cp.execSync('bash /verif/tool/dev/seed.sh '+d.name,{stdio:'inherit'});fs.rmSync('/verif/seeded/'+d.name+'/e.json',{force:true});console.log('made',d.name)}catch(e){console.log('FAILED',d.name)} }
