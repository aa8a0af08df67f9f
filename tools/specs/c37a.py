id='c37-heartbeat-id'; prop='C37'
needs='more than one heartbeat'
breaks='all heartbeats of a process carry the same id'
edits=[('anthunder/command/heartbeat.py',"""    def new_request(cls):
        return cls(""","""    def new_request(cls, request_id=next(RequestId)):
        return cls("""),
 ('anthunder/command/heartbeat.py',"cmdcode=CMDCODE.HEARTBEAT, request_id=next(RequestId))","cmdcode=CMDCODE.HEARTBEAT, request_id=request_id)")]
demo='''
from anthunder.command.heartbeat import HeartbeatRequest
assert HeartbeatRequest.new_request().request_id != HeartbeatRequest.new_request().request_id
'''
