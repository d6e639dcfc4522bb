"""C29: a pool of its own in a process of its own; ends when its standard input does."""
import asyncio
import json
import sys


async def main(address, n, labels):
    import xoscar as xo

    pool = await xo.create_actor_pool(address, n_process=n, labels=labels)
    print(json.dumps([pool.external_address, *pool.sub_processes]), flush=True)
    ended = asyncio.Event()
    loop = asyncio.get_running_loop()
    loop.add_reader(sys.stdin.fileno(), ended.set)
    await ended.wait()
    loop.remove_reader(sys.stdin.fileno())
    await pool.stop()


if __name__ == "__main__":
    spec = json.loads(sys.argv[1])
    asyncio.run(main(spec["address"], spec["n"], spec["labels"]))
