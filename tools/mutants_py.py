# More entries for mutants.py: the Python side.
CO, SV, PC, PP, SP, HC, AS = ("python/procstar/" + x + ".py" for x in
    "agent/conn agent/server agent/proc proto spec http/client lib/asyn".split())

# P23
m("P23", "py-token-prefix", (SV, "if register_msg.access_token != access_token:", "if not register_msg.access_token.startswith(access_token):"))
m("P23", "py-empty-token", (SV, "if register_msg.access_token != access_token:", "if access_token and register_msg.access_token.strip() != access_token:"))
m("P23", "py-known-conn", (SV, "if register_msg.access_token != access_token:", "if register_msg.access_token != access_token and register_msg.conn.conn_id not in self.connections:"))
m("P23", "py-registered-first", (SV, "            # Check the access token.\n            if register_msg.access_token != access_token:\n                raise proto.ProtocolError(\"permission denied\")\n\n            # Respond with a Registered message.\n            data = proto.serialize_message(proto.Registered())\n            await ws.send(data)\n",
   "            # Respond with a Registered message.\n            data = proto.serialize_message(proto.Registered())\n            await ws.send(data)\n            # Check the access token.\n            if register_msg.access_token != access_token:\n                raise proto.ProtocolError(\"permission denied\")\n"))
m("P23", "py-case-token", (SV, "if register_msg.access_token != access_token:", "if register_msg.access_token.casefold() != access_token.casefold():"))
# P24
# equivalent: m("P24", "no-open", (CO, "            if (c := self.__conns[i]).open\n            and c.shutdown_state", "            if (c := self.__conns[i]).info.stats.connected\n            and c.shutdown_state") )
# m("P24", "idling-assigned", (CO, "            and c.shutdown_state == ShutdownState.active", "            and c.shutdown_state != ShutdownState.done"))
m("P24", "late-message", (SV, "                if conn.ws is not ws:", "                if conn.ws is None:"))
m("P24", "superseded-disconnect", (SV, "            current = conn.ws is ws\n", "            current = conn.ws is ws or conn.info.stats.num_connections > 2\n"))
m("P24", "unknown-kept", (SV, "                    self.processes.on_message(conn, proto.ProcUnknown(proc_id))\n                # Request", "                    pass\n                # Request"))
m("P24", "no-result-request", (SV, "for proc_id in conn_proc_ids & our_proc_ids:", "for proc_id in conn_proc_ids - our_proc_ids:"))
m("P24", "other-conn-proc", (PC, "            elif proc.conn_id != conn_id:", "            elif proc.conn_id != conn_id and not isinstance(msg, proto.ProcResult):"))
m("P24", "create-first-lost", (SV, "        except Exception:\n            self.processes._discard(proc)\n            raise", "        except Exception:\n            raise"))
# equivalent: m("P24", "unknown-creates", (PC, "            case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):\n                if (proc := find_proc(proc_id)) is not None:", "            case proto.ProcDelete(proc_id) | proto.ProcUnknown(proc_id):\n                if (proc := get_proc(proc_id)) is not None:"))
m("P24", "timeout-keeps-procs", (PC, "                for proc in tuple(self.__procs.values()):\n                    if proc.conn_id == conn_id:\n                        self._discard(proc)\n", "                for proc in tuple(self.__procs.values())[:1]:\n                    if proc.conn_id == conn_id:\n                        self._discard(proc)\n"))
m("P24", "waiters-one", (PC, "            case proto.ProcUnknown(_):\n                self.__finish(msg)\n", "            case proto.ProcUnknown(_):\n"))
m("P24", "error-all", (PC, "                            if (proc := find_proc(proc_id)) is not None:\n                                # The agent doesn't have it.\n                                self._discard(proc)\n                                send_to(proc)", "                            if (proc := find_proc(proc_id)) is not None:\n                                # The agent doesn't have it.\n                                send_to(proc)"))
m("P24", "reconnect-shutdown-kept", (CO, "            conn.shutdown_state = shutdown_state\n", ""))
m("P24", "group-leak", (CO, "        group.remove(conn_id)\n", "        group.discard(conn_id) if len(group) > 1 else None\n"))
m("P24", "done-orphans", (SV, "            elif done:\n                assert self.connections._pop(conn_id) is conn\n", "            elif done:\n                assert self.connections._pop(conn_id) is conn\n                if len(self.connections): return\n"))
m("P24", "choose-no-wait", (CO, "            if remain < 0:", "            if remain < 0.05:"))
m("P24", "publish-missing", (CO, "        self._publish((conn_id, conn))\n        return conn\n", "        if conn.info.stats.num_connections == 1: self._publish((conn_id, conn))\n        return conn\n"))
m("P24", "dup-id-start", (SV, "        if proc_id in self.processes:\n            raise ValueError(f\"proc ID in use: {proc_id}\")\n", "        if proc_id in self.processes:\n            self.processes._discard(self.processes[proc_id])\n"))
m("P24", "timer-not-cancelled-pop", (CO, "        async def timeout():\n            # Wait for the timeout to elapse.\n            await asyncio.sleep(duration)\n", "        async def timeout():\n            # Wait for the timeout to elapse.\n            await asyncio.sleep(duration * (1 + (self.info.stats.num_connections > 1)))\n"))
m("P24", "old-ws-open", (CO, "            if not old_conn.ws.closed:", "            if old_conn.ws.closed:"))
m("P24", "idmatch-signal", (PC, "            case proto.RequestError(msg, err):\n                logger.error(f\"agent error: {err}\")\n", "            case proto.RequestError(msg, err):\n                logger.error(f\"agent error: {err}\")\n                self.__msgs = asyncio.Queue()\n"))
# P25
m("P25", "alias-dup", (SP, "                fd = int(fd)\n                if not 0 <= fd:", "                fd = int(fd)\n                if not 0 < fd:"))
m("P25", "mode-dropped", (SP, "                        \"mode\"  : self.__mode,", "                        \"mode\"  : self.__mode & 0o777,"))
m("P25", "env-none", (SP, "                str(n): None if v is None else str(v)", "                str(n): None if not v else str(v)"))
m("P25", "make-proc-env-true", (SP, "vars    ={ n: v for n, v in env_vars.items() if v is not True },", "vars    ={ n: v for n, v in env_vars.items() if v is not True and v is not None },"))
m("P25", "read-fd-default", (SP, "            \"2\": \"stderr\",\n        }", "            \"2\": \"stderr\",\n            \"3\": \"stdin\",\n        }") if False else (SP, "                return str(n)\n", "                return str(n % 256)\n"))
m("P25", "attached-none", (SP, "                self.__attached     = bool(attached)", "                self.__attached     = bool(attached) or mode == \"tempfile\""))
m("P25", "fds-order", (SP, "[ (n, f.to_jso()) for n, f in self.__fds.items() ]", "[ (n, f.to_jso()) for n, f in sorted(self.__fds.items()) ]"))
m("P25", "quote-slash", (HC, "quote(str(segment), safe=\"\")", "quote(str(segment), safe=\":@!$&'()*+,;=/\")"))
m("P25", "quote-percent", (HC, "quote(str(segment), safe=\"\")", "quote(str(segment), safe=\"%\")"))
m("P25", "dot-segments", (HC, "    return quoted.replace(\".\", \"%2E\") if quoted in (\".\", \"..\") else quoted", "    return quoted.replace(\".\", \"%2E\") if quoted == \"..\" else quoted"))
m("P25", "text-guess", (HC, "return rsp.content if rsp.charset_encoding is None else rsp.text", "return rsp.text if rsp.headers[\"content-type\"].startswith(\"text\") or rsp.content.isascii() else rsp.content"))
m("P25", "no-raise-delete", (HC, "        async with self.__request(\"DELETE\", \"procs\", proc_id) as rsp:\n            rsp.raise_for_status()", "        async with self.__request(\"DELETE\", \"procs\", proc_id) as rsp:\n            if rsp.status_code != 404: rsp.raise_for_status()"))
m("P25", "empty-id", (HC, "        if proc_id is None:", "        if not proc_id or proc_id.isspace():"))
m("P25", "msg-stop-zero", (PC, "            stop    =interval.stop,", "            stop    =interval.stop or None,"))
m("P25", "proto-bytes", (PP, "jso = msgpack.loads(msg)", "jso = msgpack.loads(msg, unicode_errors=\"ignore\", max_bin_len=1 << 20)"))
m("P25", "shutdown-state", (PP, "shutdown_state  =ShutdownState[jso[\"shutdown_state\"]],\n        )\n\n\n    def __repr__", "shutdown_state  =ShutdownState.active if jso[\"shutdown_state\"] == \"idling\" else ShutdownState[jso[\"shutdown_state\"]],\n        )\n\n\n    def __repr__"))
m("P25", "argv-strip", (SP, "self.__argv = tuple( str(a) for a in argv )", "self.__argv = tuple( s for a in argv if (s := str(a)) )"))
m("P25", "bash-login", (SP, "argv = [get_bash_path(), \"-c\", what]", "argv = [get_bash_path(), \"-c\", what.strip()]"))
m("P25", "pipe-fd", (SP, "                self.__fd = Proc.Fd.normalize(fd)", "                self.__fd = Proc.Fd.normalize(fd).replace(\"std\", \"std\").removesuffix(\"0\") or \"0\""))
