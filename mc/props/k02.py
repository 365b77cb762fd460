from props.common import Job, find, with_csrs, with_reset
from props.l08 import hdmi_pads
from props.prims import Clocks, faults


def dcm():
    from litevideo.output.hdmi.s6 import S6HDMIOutClocking
    m = S6HDMIOutClocking(hdmi_pads(), None)
    top, regs = with_csrs(m)
    frag = with_reset(top.get_fragment(), ["sys"])
    x = find(frag, "DCM_CLKGEN")[0]
    i = dict(cmd_re=regs["cmd_data"].re, cmd_r=regs["cmd_data"].r, send=regs["send_cmd_data"].re, go=regs["send_go"].re,
             progdone=x["PROGDONE"], pixlocked=x["LOCKED"], buflock=find(frag, "BUFPLL")[0]["LOCK"])
    bad = faults(Clocks(frag), frag)
    o = dict(progen=x["PROGEN"], progdata=x["PROGDATA"], status=regs["status"].w)
    return dict(module=frag, inputs=i, outputs=o, clocks=["sys"], edges=[("sys",)], defines={"SET_WRONG": '"%s"' % bad} if bad else {})


def jobs(tier):
    return [Job("histories", dcm, "dcm.cpp", covers={0: "command sent", 1: "go"}, threads=4, traces=4),
            Job("all-commands", dcm, "dcm.cpp", covers={0: "command sent"}, defines=dict(ALLCMD=1), threads=4, traces=4)]
