class GrpcPipelinePartExecutionResult:
    """one result of the stream: which of its alternatives is set (HasField) and their content"""
    def HasField(self, name):
        raise NotImplementedError()


class GrpcFinalResult:
    """the final result of an execution"""
    def HasField(self, name):
        raise NotImplementedError()


class GrpcPartResult:
    """the identifier of a part and named values"""


class GrpcWireUuid:
    """the text of an identifier"""


class GrpcNamedValue:
    """a name and a value"""


class GrpcLogMessage:
    """a message"""
