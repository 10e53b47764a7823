from collections import deque


class Deck(deque):
    def push(self, x):
        if x is not None:
            self.append(x)

    def pull(self, emptive=True):
        try:
            return self.popleft()
        except IndexError:
            if not emptive:
                raise
            return None
