----------------------------------------------- MODULE LockObjMC -----------------------------------------------
(* LockObj with its constants taken from the environment variable CONF, e.g. "xxs 2 1 1 0" as JSON *)
EXTENDS LockObj, IOUtils
Conf == JsonDeserialize(IOEnv.CONF)
K_ == Conf.kinds
NM_ == Conf.nm
G_ == Conf.guards
MO_ == Conf.orphan
D_ == Conf.dump
================================================================================================================
