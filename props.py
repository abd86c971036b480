"""Which specification modules and which replay harness decide each property."""
import os
def cli_gen(gen):
    """stand-ins for two files the zmdp program includes: the embedded default configuration (generated by the
    project's build from zmdp.config) and the life-survey executive (a model-specific policy type, not built here)"""
    import build
    t=open(build.S+'/main/zmdp.config').read()
    lit='\n'.join('"'+l.replace('\\','\\\\').replace('"','\\"')+'\\n"' for l in t.split('\n')[:-1])
    open(gen+'/zmdpMainConfig.cc','w').write('#include "embedFiles.h"\nstatic const char zh_default_config[] =\n'+lit+';\nembed_buffer_t defaultConfig = {sizeof(zh_default_config), zh_default_config};\n')
    open(gen+'/LSPathAndReactExec.h','w').write('#include "MDPExec.h"\nnamespace zmdp { struct LSPathAndReactExec : public MDPExecCore { void init(const char*, const ZMDPConfig*) {} void setToInitialState() {} int chooseAction() { return 0; } void advanceToNextState(int, int) {} }; }\n')
PROPS={}
def P(id,**k): PROPS[id]=k
P('C01',mods=['sla'],harness='c01.cc',sources=[],bounded=["copy(cmatrix,kmatrix)","mult(cvector,cmatrix,cvector)"])
P('C02',mods=['sla'],harness='c02.cc',sources=[],bounded=["copy(cmatrix,kmatrix)","mult(cvector,cmatrix,cvector)"])
P('C03',mods=['sla'],harness='c03.cc',sources=[])
P('C04',mods=['pomdp'],harness='c04.cc',sources='ALL')
P('C05',mods=['bounds'],harness='c05.cc',sources='ALL')
P('C06',mods=[],harness='c06.cc',sources='ALL')
P('C07',mods=[],harness='c07.cc',sources='ALL')
P('C08',mods=[],harness='c08.cc',sources='ALL')
P('C09',mods=[],harness='c09.cc',sources='ALL')
P('C10',mods=[],harness='c10.cc',sources='ALL')
P('C11',mods=[],harness='c11.cc',sources='ALL')
P('C12',mods=[],harness='c12.cc',sources='ALL')
P('C13',mods=[],harness='c13.cc',sources='ALL')
P('C14',mods=[],harness='c14.cc',sources='ALL')
P('C15',mods=[],harness='c15.cc',sources='ALL')
P('C16',mods=[],harness='c16.cc',sources='ALL')
P('C17',mods=[],harness='c17.cc',sources='ALL')
P('C18',mods=[],harness='c18.cc',sources='ALL')
P('C19',mods=[],harness='c19.cc',sources='ALL')
P('C20',mods=[],harness='c20.cc',sources='ALL',prepare=cli_gen)
P('C21',mods=[],harness='c21.cc',sources='ALL')
P('C22',mods=[],harness='c22.cc',sources='ALL')
