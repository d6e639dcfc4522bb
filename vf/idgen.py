"""Run as a program: makes ids in a family of processes; a client of a pool that forks."""
import asyncio
import os
import random
import sys
import threading


def ids(n):
    from xoscar._utils import new_actor_id, new_random_id
    from xoscar.backends.message import new_message_id

    out = []
    for i in range(n):
        out.append((new_message_id, new_actor_id, lambda: new_random_id(16))[i % 3]().hex())
    return out


def emit(lines):
    data = ("\n".join(lines) + "\n").encode()
    while data:
        data = data[os.write(1, data):]


def family(how, n, seed):
    """how: letters; s: random.seed first, g: ids before forking, f: fork (twice), t: threads, n: again fork in the children"""
    if "s" in how:
        random.seed(seed)
    mine = []
    if "g" in how:
        mine = ids(n)
    kids = []

    def child(deeper):
        if "s" in how:
            random.seed(seed)
        out = ids(n)
        if deeper:
            pid = os.fork()
            if not pid:
                emit(ids(n))
                os._exit(0)
            out += ids(n)
            os.waitpid(pid, 0)
        emit(out)

    if "f" in how:
        for i in range(3):
            pid = os.fork()
            if not pid:
                try:
                    child("n" in how)
                finally:
                    os._exit(0)
            kids.append(pid)
    mine += ids(n)
    if "t" in how:
        res = []
        ts = [threading.Thread(target=lambda: res.extend(ids(n))) for _ in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        mine += res
    for k in kids:
        os.waitpid(k, 0)
    emit(mine)


def clients(address, k, seeded):
    """Forks k clients; each calls, every second one cancels its call; says what became of each."""
    import xoscar as xo
    from xoscar.backends.message import new_message_id

    new_message_id()  # as a parent does that has used xoscar

    async def client(i):
        ref = await xo.actor_ref(address, "slow")
        name = f"{os.getpid()}"
        t = asyncio.create_task(ref.slow(name))
        while not await ref.all_there(k):
            await asyncio.sleep(0.01)
        if i % 2:
            t.cancel()
            try:
                await t
            except asyncio.CancelledError:
                return f"{i} cancelled {await ref.how(name)}"
            return f"{i} returned {await ref.how(name)}"
        while await ref.count_cancelled() < k // 2:
            await asyncio.sleep(0.01)
        await ref.release(name)
        try:
            return f"{i} {await t} {await ref.how(name)}"
        except asyncio.CancelledError:
            return f"{i} cancelled {await ref.how(name)}"

    kids = []
    for i in range(k):
        pid = os.fork()
        if not pid:
            try:
                if seeded:
                    random.seed(5)
                try:
                    emit([asyncio.run(asyncio.wait_for(client(i), 40))])
                except BaseException as e:
                    emit([f"{i} error {type(e).__name__}: {e}"])
            finally:
                os._exit(0)
        kids.append(pid)
    for pid in kids:
        os.waitpid(pid, 0)


if __name__ == "__main__":
    if sys.argv[1] == "family":
        family(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    else:
        clients(sys.argv[2], int(sys.argv[3]), sys.argv[4] == "seeded")
