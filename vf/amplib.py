"""A monitored AMP authentication server and clients."""
from twisted.cred.checkers import ICredentialsChecker
from twisted.cred.credentials import IUsernameHashedPassword, UsernamePassword
from twisted.cred.error import UnauthorizedLogin
from twisted.cred.portal import IRealm, Portal
from twisted.internet.defer import Deferred, maybeDeferred
from twisted.protocols import amp
from zope.interface import implementer

from epsilon import ampauth
from vf.juicelib import *


class Ping(amp.Command):
    arguments = [(b'n', amp.String())]
    response = [(b'n', amp.String())]


class Secret(amp.Command):
    """Only avatars answer this."""
    arguments = []
    response = [(b'who', amp.String())]


class Avatar(amp.AMP):
    """What a user gets on login; every use is recorded in the world."""
    def __init__(self, world, who):
        amp.AMP.__init__(self)
        self.world, self.who = world, who
        self.sender = None
        self.started = 0
        self.stopped = 0
        self.boxes = 0
        self.failStart = False

    def startReceivingBoxes(self, sender):
        self.started += 1
        if self.failStart:
            raise ZeroDivisionError('cannot start')
        amp.AMP.startReceivingBoxes(self, sender)

    def ampBoxReceived(self, box):
        self.boxes += 1
        if self.world is not None:
            self.world.onAvatarBox(self, box)
        amp.AMP.ampBoxReceived(self, box)

    def stopReceivingBoxes(self, reason):
        self.stopped += 1
        amp.AMP.stopReceivingBoxes(self, reason)

    @Secret.responder
    def secret(self):
        return {'who': self.who}

    @Ping.responder
    def ping(self, n):
        return {'n': n}


@implementer(ICredentialsChecker)
class PasswordChecker(object):
    credentialInterfaces = (IUsernameHashedPassword,)

    def __init__(self, passwords):
        self.passwords = passwords
        self.asked = []

    def requestAvatarId(self, credentials):
        self.asked.append(credentials.username)
        if credentials.username in self.passwords and credentials.checkPassword(self.passwords[credentials.username]):
            return credentials.username
        raise UnauthorizedLogin('no')


@implementer(IRealm)
class Realm(object):
    def __init__(self, world):
        self.world = world

    def requestAvatar(self, avatarId, mind, *interfaces):
        return self.world.requestAvatar(avatarId, interfaces)


def passwordBytes(p):
    return p.encode('utf-8') if isinstance(p, str) else p


def boxesIn(data):
    try:
        return amp.parseString(bytes(data))
    except Exception:
        return []
