#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T="deterministic simulation of the whole server with seeded schedules and fault injection; "
N={
"C01":("streams compared byte by byte with a reference demodulator","The reference demodulator is an independent straight-line implementation; symbols after a numerically undecidable tie (rounding-level) are not compared. Sequential consistency of memory accesses is assumed."),
"C02":("drop rules checked over the recorded history","Whole-buffer drop rule, justification of drops and progress of everybody else are judged from the sample recording and the read log of the upstream connection."),
"C03":("file streams compared with the reference demodulation of the whole file","As C01; files of up to some thousand samples."),
"C04":("recordings on the simulated disk compared with streams, samples and device data","The simulated disk persists what was handed to write calls; power loss below the C library is not modelled."),
"C05":("samples at the transmit device compared with a reference modulator and the responses","Exact sample positions, values within 0.05; message boundaries from the client's history."),
"C06":("device ownership judged over the history of requests and device calls","Requests whose overlap with an owner is ambiguous are accepted either way."),
"C07":("upstream connections and streams judged over the recorded history","Sharing is judged for joins that are unambiguous in time."),
"C08":("health, latency and streams judged beside offending clients","Delay bound: a small multiple of the read timeout per offender."),
"C09":("every response checked against the request and the server state","Reason codes are judged where the state is unambiguous."),
"C10":("resource tables of the simulator checked after sessions and at exit; address sanitizer","Allocator, descriptor, thread, file and device tables are the simulator's own."),
"C11":("stop signal injected at random scheduling points","Bound on termination: read timeouts plus device time, with peers that read or disconnect."),
"C12":("failures injected into allocations, threads, sockets, files and the radio library","Failure placement is random per call with swarm rates, singly and in bursts."),
"C13":("instantaneous frequency of transmitted samples and symbols of received ones compared with a reference orbit model","Tolerance: drift within one buffer plus 2 Hz; received symbols statistically (mean offset and share of wrong symbols). The orbit model is a frozen copy of SGP4."),
"C14":("linearizability of recorded concurrent queue histories against a sequential model","Histories of up to some tens of operations of two to four threads."),
"C15":("upstream failures injected at random bytes of handshake and stream","As C01 for the sample accounting."),
"C16":("every call to the simulated radio library checked for order, lifetime, thread and arguments","The radio is a mock with the life cycle rules of libiio."),
"C17":("payloads sent by one simulated session compared bit-exactly with what another receives","Random payloads, parameters with an open eye, noiseless channel (file)."),
"C18":("the whole server started on generated, broken and unreadable configurations and with failures during start-up; every setting observed from outside","The size of the queue is observed through drops only, the buffer size through the radio's buffers."),
}
checks=[dict(property=k,quick_cmd=f"./check.sh {k} quick",thorough_cmd=f"./check.sh {k} thorough",evidence_file=f"evidence/{k}.json",technique=T+v[0],level="exploration",level_note="Sampled, not exhaustive: a quiet run is evidence for the explored seeds only. "+v[1]) for k,v in N.items()]
m=dict(version=1,setup_cmd="python3 build.py",checks=checks,
 not_applicable=[
 dict(property="C19",reason="Numerical accuracy of pure functions (filter design, arctangent, orbit model): nothing in it depends on scheduling, time, I/O or faults, so simulation has nothing to decide."),
 ],
 notes="No hooks in /repo: every seam is taken at link time (--wrap of libc, pthread and libiio entry points) or by compiling /repo/src with sanitizer coverage callbacks. All commits in /repo are repairs of genuine defects, listed in known_findings.txt.")
json.dump(m,open("MANIFEST.json","w"),indent=1)
